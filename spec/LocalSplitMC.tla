----------------------------- MODULE LocalSplitMC -----------------------------
(* All galaxy tables at resolution 4 within two base pixels' corner, all      *)
(* regions, resolutions and process counts.                                   *)
EXTENDS LocalSplit, TLC
VARIABLE s
GalPix == {0, 1, 5, 17, 18, 31}
Regions == {<<-1, {}>>} \cup {<<0, r>> : r \in {{0}, {1}, {0, 1}}} \cup {<<1, r>> : r \in (SUBSET {0, 1, 4, 5}) \ {{}}}
           \cup {<<2, r>> : r \in {{0}, {0, 1}, {17, 31}}}
Init == \E g \in (SUBSET GalPix) \ {{}}, rg \in Regions, m \in 0..2, n \in 1..3 :
          s = [galk |-> 2, gal |-> g, regk |-> rg[1], region |-> rg[2], mink |-> m, nproc |-> n]
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Good == LET k == Chosen(s) IN
        /\ Covers(s, k, Jobs(s, k)) /\ NonEmpty(s, k, Jobs(s, k)) /\ Inside(s, k, Jobs(s, k))
        /\ \A j \in Tried(s) : j > k => Cardinality(Jobs(s, j)) > 2 * s.nproc
        /\ (Cardinality(Jobs(s, k)) > 2 * s.nproc) => k = Start(s)
        (* finer resolutions never need fewer jobs *)
        /\ \A j \in Tried(s) : j > k => Cardinality(Jobs(s, j)) >= Cardinality(Jobs(s, k))
===============================================================================
