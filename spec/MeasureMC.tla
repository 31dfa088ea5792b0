------------------------------- MODULE MeasureMC -------------------------------
EXTENDS Measure, TLC
VARIABLES g, masking, omit, ids
Tags == 1..3
Gals == 1..4
Lists == {s \in UNION {[1..n -> Tags] : n \in 1..3} : Cardinality({s[i] : i \in DOMAIN s}) = Len(s)}
mc == <<mvars, g, masking, omit, ids>>
Given(tag, gone) == g[tag] \ gone
MCInit == /\ \E list \in Lists : MInit(list)
          /\ g \in [Tags -> SUBSET Gals]
          /\ masking \in BOOLEAN /\ omit \in BOOLEAN
          /\ ids \in {<<1, 2, 3>>, <<7, 5, 9>>}
MCNext == Process(Given, ids, masking, omit) /\ UNCHANGED <<g, masking, omit, ids>>
MCSpec == MCInit /\ [][MCNext]_mc
Done == pos = Len(input)
(* every cluster once (or, when scanning, every detected cluster once), in list order *)
Complete == Done => /\ InListOrder(out, input)
                    /\ Cardinality({out[i].tag : i \in 1..Len(out)}) = Len(out)
                    /\ ~omit => {out[i].tag : i \in 1..Len(out)} = {input[i] : i \in 1..Len(input)}
                    /\ omit => \A i \in 1..Len(out) : out[i].good
(* without masking the company does not matter *)
Alone == ~masking => \A i \in 1..Len(out) : out[i].mem = g[out[i].tag]
(* the first cluster is always measured as if alone *)
First == pos >= 1 /\ ~omit => out[1].mem = g[input[1]]
(* with masking no galaxy is member of two clusters *)
Disjoint == masking => \A i, j \in 1..Len(out) : i # j => out[i].mem \cap out[j].mem = {}
(* what was written does not depend on what comes later *)
Prefix == [][\A i \in 1..Len(out) : out'[i] = out[i]]_mc
===============================================================================
