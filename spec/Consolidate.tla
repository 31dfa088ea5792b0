----------------------------- MODULE Consolidate -----------------------------
(* Consolidation of a distributed run (C14).  Per-pixel final catalogues are *)
(* taken in some order; the clusters that lie in the pixel of their own file *)
(* and pass the mask-fraction and minimum-richness cuts are good.  Each      *)
(* (richness cut, volume limit) pair collects the good clusters that pass    *)
(* it.  At the end ids are the ranks by decreasing likelihood over ALL good  *)
(* clusters, so that a cluster has one id in all files.                      *)
(* A cluster is a record                                                     *)
(*   [gid, inpix, lam, scale, mask, z, like, zmax, mem]                      *)
(* lam, scale in quarters, z/zmax in thousandths, mask in 64ths.             *)
EXTENDS Integers, Sequences, FiniteSets

Good(c, minlam, maxmask) == c.inpix /\ c.mask < maxmask /\ c.lam > minlam

(* richness cut in quarters; when the cut is on the unscaled richness,       *)
(* lam/scale > cut  <=>  lam/4 > cut/4 * scale/4                             *)
PassesRichness(c, cut, scaled) == IF scaled THEN 4 * c.lam > cut * c.scale ELSE c.lam > cut
PassesVlim(c, v) == c.zmax[v] > c.z

VARIABLES par,       \* [cuts, nvl, scale, minlam, maxmask]
          seen,      \* sequence of good clusters in the order read
          out,       \* [<<cut, vl>> -> sequence of clusters]
          phase      \* "read" | "done"

vars == <<par, seen, out, phase>>

Pairs == {<<i, j>> : i \in 1..Len(par.cuts), j \in 1..par.nvl}

Sel(rows, p) == SelectSeq(rows, LAMBDA c : /\ PassesRichness(c, par.cuts[p[1]], par.scale)
                                           /\ PassesVlim(c, p[2]))

Setup(pp) == /\ par = pp
             /\ seen = <<>>
             /\ out = [p \in {<<i, j>> : i \in 1..Len(pp.cuts), j \in 1..pp.nvl} |-> <<>>]
             /\ phase = "read"

ReadFile(rows) ==
  LET good == SelectSeq(rows, LAMBDA c : Good(c, par.minlam, par.maxmask))
  IN /\ phase = "read"
     /\ seen' = seen \o good
     /\ out' = [p \in DOMAIN out |-> out[p] \o Sel(good, p)]
     /\ UNCHANGED <<par, phase>>

Finish == phase = "read" /\ phase' = "done" /\ UNCHANGED <<par, seen, out>>

(* The ids an implementation may give: rank among all good clusters, ties in *)
(* any order.                                                                *)
Better(c) == Cardinality({i \in 1..Len(seen) : seen[i].like > c.like})
AtLeast(c) == Cardinality({i \in 1..Len(seen) : seen[i].like >= c.like})
IdAllowed(c, id) == id > Better(c) /\ id <= AtLeast(c)

GidSet(s) == {s[i].gid : i \in 1..Len(s)}

(* Spectroscopic match: the nearest well measured spectrum within 3 arcsec of *)
(* the position (specs is in order of distance, [milliarcsec, z, measured]).  *)
SpecOf(specs) == LET ok == SelectSeq(specs, LAMBDA s : s[3] /\ s[1] < 3000)
                 IN IF ok = <<>> THEN -1000 ELSE ok[1][2]

(* Properties of the design *)
ExactlyOnce == \A p \in DOMAIN out : Cardinality(GidSet(out[p])) = Len(out[p])
OnlyGood == \A p \in DOMAIN out : \A i \in 1..Len(out[p]) :
               Good(out[p][i], par.minlam, par.maxmask)
Nested == \A p, q \in DOMAIN out :
            (p[2] = q[2] /\ par.cuts[p[1]] >= par.cuts[q[1]]) => GidSet(out[p]) \subseteq GidSet(out[q])
RankTotal == \A i \in 1..Len(seen) : Better(seen[i]) < AtLeast(seen[i])
==============================================================================
