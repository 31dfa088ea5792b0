------------------------------- MODULE Richness -------------------------------
(* The richness of a cluster (C23).  The richness is a value L at which the   *)
(* effective memberships given L, corrected for masking, add up to L; it is   *)
(* found by halving a bracket.  Lengths in kpc, probabilities and weights in  *)
(* 1/1000, richness in 1/100, mask correction in 1/10000.                     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES lo, hi     \* the bracket
(* out(L): what the memberships given L add up to *)
Half(out(_), bottom) ==
  /\ hi - lo > 1
  /\ LET mid == (lo + hi) \div 2
         below == IF lo = bottom /\ out(lo) <= lo THEN TRUE ELSE out(lo) > lo
     IN IF below = (out(mid) > mid) THEN lo' = mid /\ hi' = hi ELSE hi' = mid /\ lo' = lo
(* soft edge of the cluster: full weight inside, none outside *)
EdgeOk(th, r, rl, rsig, slack) ==
  /\ th >= 0 /\ th <= 1000
  /\ IF rsig = 0
     THEN (r < rl - slack => th = 1000) /\ (r > rl + slack => th = 0)
     ELSE /\ (r < rl - 5 * rsig - slack => th >= 999) /\ (r > rl + 5 * rsig + slack => th = 0)
          /\ (r < rl - slack => th >= 490) /\ (r > rl + slack => th <= 510)
===============================================================================
