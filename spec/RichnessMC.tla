------------------------------ MODULE RichnessMC ------------------------------
(* every function on a small range of richness: halving ends at a crossing    *)
EXTENDS Richness, TLC
VARIABLES f
B == 1
T == 6
Out(x) == f[x]
MCInit == f \in [B..T -> 0..6] /\ lo = B /\ hi = T
MCNext == Half(Out, B) /\ UNCHANGED f
MCSpec == MCInit /\ [][MCNext]_<<lo, hi, f>> /\ WF_<<lo, hi, f>>(MCNext)
Bracket == lo < hi /\ (lo = B \/ f[lo] > lo) /\ (hi = T \/ f[hi] <= hi)
Ends == <>(hi - lo = 1)
===============================================================================
