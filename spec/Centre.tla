-------------------------------- MODULE Centre --------------------------------
(* Choosing the centre of a cluster (C24).  Lengths in kpc, redshifts in      *)
(* 1e-4, probabilities in percent; the redshift of a galaxy with a spectrum   *)
(* is its spectroscopic one when the configuration says so.                   *)
EXTENDS Integers, Sequences, FiniteSets
(* s: z (cluster), rl, chimax, usezspec *)
UseSpec(s, g) == s.usezspec /\ g.zs > 0
Z(s, g) == IF UseSpec(s, g) THEN g.zs ELSE g.z
Ze(s, g) == IF UseSpec(s, g) THEN g.zse ELSE g.ze
Mag(x) == IF x < 0 THEN -x ELSE x
(* the brightest-galaxy method: likely members or galaxies at the redshift *)
BcgEligible(s, g) == g.r <= s.rl /\ (g.pmem > 80 \/ Mag(Z(s, g) - s.z) < 2 * Ze(s, g))
(* the likelihood method: also available and of red-sequence colour *)
WcenEligible(s, g) == /\ g.r <= s.rl
                      /\ g.pfree >= 50
                      /\ (UseSpec(s, g) \/ g.chi <= s.chimax)
                      /\ (g.pmem > 0 \/ Mag(Z(s, g) - s.z) < 5 * Ze(s, g))
Ids(gals, ok(_)) == {gals[i].id : i \in {j \in 1..Len(gals) : ok(gals[j])}}
GalOf(gals, id) == gals[CHOOSE i \in 1..Len(gals) : gals[i].id = id]
(* relative probabilities of exactly one of the candidates being the centre, from the single-candidate probabilities c (in units of 1/one) *)
RECURSIVE ProdOther(_, _, _, _)
ProdOther(c, k, i, one) == IF i > Len(c) THEN 1 ELSE (IF i = k THEN 1 ELSE one - c[i]) * ProdOther(c, k, i + 1, one)
Weight(c, k, one) == c[k] * ProdOther(c, k, 1, one)
NonIncreasing(s) == \A i \in 1..(Len(s) - 1) : s[i] >= s[i + 1]
===============================================================================
