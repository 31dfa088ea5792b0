----------------------------- MODULE LocalConsol -----------------------------
(* Consolidation of a local run (C13): of the per-pixel catalogues, keep the  *)
(* clusters inside the pixel of their own file, masked below the limit, with  *)
(* unscaled richness lam/scale above the minimum (lam, scale, minlam in       *)
(* quarters: lam/scale > minlam/4 <=> 4 lam > minlam scale).                  *)
EXTENDS Integers, Sequences, FiniteSets
KeepC(c, minlam, maxmask) == c.inpix /\ c.mask < maxmask /\ 4 * c.lam > minlam * c.scale
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Kept(files, minlam, maxmask) == SelectSeq(Flat(files), LAMBDA c : KeepC(c, minlam, maxmask))
(* an order by decreasing likelihood, ties in any order *)
Ranked(seq) == \A i, j \in 1..Len(seq) : i < j => seq[i].like >= seq[j].like
===============================================================================
