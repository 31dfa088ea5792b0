--------------------------------- MODULE Redmagic --------------------------------
(* redMaGiC selection (C21). A galaxy g has a redshift z and error e, chi-squared   *)
(* chi, luminosities l0 (at z) and l1 (at the corrected redshift) in units of the    *)
(* characteristic one, the values cm, b, er of the mode's calibrated curves at z      *)
(* (largest chi-squared, redshift bias, error ratio), and zmax where it lies (-1:     *)
(* outside the footprint). A mode p has a redshift range lo..hi, maxchi, the smallest *)
(* luminosity eta with its cushion, and whether the afterburner runs and is applied   *)
(* to the samples.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets
Clip(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x
Tenth == 100
MinLum(p) == IF p.eta - p.cush < Tenth THEN Tenth ELSE p.eta - p.cush
ChiMax(g, p) == Clip(g.cm, 100, p.maxchi)
ZCorr(g, p) == IF p.runab THEN g.z - g.b ELSE g.z
Possible(g, p) == g.z > p.lo /\ g.z < p.hi /\ g.chi < p.maxchi /\ g.l0 > MinLum(p)
Selected(g, p) == /\ Possible(g, p)
                  /\ g.chi < ChiMax(g, p)
                  /\ g.l1 > p.eta
                  /\ ZCorr(g, p) < g.zmax
Shift(g, p) == IF p.runab /\ p.applyab THEN g.b ELSE 0
(* error, ten thousand times *)
ErrCorr(g, p) == IF p.runab THEN g.e * g.er ELSE g.e * 10000
(* the spectrum of a galaxy: the nearest trustworthy one within three arcseconds *)
Good(g) == {s \in {g.near[i] : i \in 1..Len(g.near)} : s.good /\ s.d < 3000}
Spec1(g) == IF Good(g) = {} THEN {-1000} ELSE {s.z : s \in {x \in Good(g) : \A y \in Good(g) : x.d <= y.d}}
==================================================================================
