---------------------------------- MODULE Maps ----------------------------------
(* Footprint, depth and volume-limit maps (C19).                                   *)
(* A map is a set of cells [p, f, d]: pixel, fraction of the pixel in the          *)
(* footprint (quarters), value.  Reading gives an answer for every position; a     *)
(* position whose pixel is not in the map is outside.                              *)
EXTENDS Integers, Sequences, FiniteSets
Outside == -1
RECURSIVE SumF(_)
SumF(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE x \in S : TRUE IN c.f + SumF(S \ {c})
Covered(M) == {c.p : c \in M}
(* what a position in pixel p must be told by a map in which it can be seen        *)
Frac(M, p) == IF p \in Covered(M) THEN (CHOOSE c \in M : c.p = p).f ELSE Outside
Value(M, p) == IF p \in Covered(M) THEN (CHOOSE c \in M : c.p = p).d ELSE Outside
(* in the footprint: never outside or with fraction 0, always with fraction 4      *)
MaskAllowed(f, inside) == (f <= 0 => ~inside) /\ (f = 4 => inside)
(* area deeper than a value, in quarters of a pixel                                *)
DeeperArea(M, v) == SumF({c \in M : c.d > v})
(* value given to mask galaxies that are outside: the middle (or, of fewer than    *)
(* three, the mean) of those inside; twice the value, to stay with integers        *)
RECURSIVE Sorted(_)
Sorted(B) == IF B = <<>> THEN <<>> ELSE
             LET m == CHOOSE i \in 1..Len(B) : \A j \in 1..Len(B) : B[i] < B[j] \/ (B[i] = B[j] /\ i <= j)
             IN <<B[m]>> \o Sorted([k \in 1..(Len(B) - 1) |-> IF k < m THEN B[k] ELSE B[k + 1]])
Fill2(B) == LET s == Sorted(B)  n == Len(B)
            IN IF n % 2 = 1 THEN 2 * s[(n + 1) \div 2] ELSE s[n \div 2] + s[n \div 2 + 1]
=================================================================================
