-------------------------------- MODULE PassesMC --------------------------------
(* All lists of up to three of three candidates with every combination of      *)
(* eligibility and iteration outcomes (accepted with a new redshift, or        *)
(* rejected), two iterations.                                                  *)
EXTENDS Passes, TLC
VARIABLES elig, o1, o2, lk
mc == <<pvars, elig, o1, o2, lk>>
Ids == 1..3
Lists == {s \in UNION {[1..n -> Ids] : n \in 1..3} : Cardinality({s[i] : i \in DOMAIN s}) = Len(s)}
Rec(s) == [i \in 1..Len(s) |-> [id |-> s[i], z0 |-> 10 * s[i]]]
MCInit == /\ \E s \in Lists : PInit(Rec(s))
          /\ elig \in [Ids -> BOOLEAN]
          /\ o1 \in [Ids -> {0, 1}] /\ o2 \in [Ids -> {0, 2}] /\ lk \in [Ids -> BOOLEAN]
Ok(c) == IF pass = "first" THEN elig[c.id] ELSE TRUE
Out(c, i) == IF pass = "first" THEN (IF i = 1 THEN [ok |-> o1[c.id] # 0, z |-> 10 * c.id + o1[c.id]] ELSE [ok |-> o2[c.id] # 0, z |-> 10 * c.id + o2[c.id]])
             ELSE [ok |-> lk[c.id], z |-> c.z0]
MCNext == /\ (Consider(Ok) \/ Iterate(Out, IF pass = "first" THEN 2 ELSE 1) \/ NextPass)
          /\ UNCHANGED <<elig, o1, o2, lk>>
MCSpec == MCInit /\ [][MCNext]_mc /\ WF_mc(MCNext)
IdsOf(s) == {s[i].id : i \in 1..Len(s)}
Good1(i) == elig[i] /\ o1[i] # 0 /\ o2[i] # 0
(* nobody twice, in list order, with the own last redshift *)
Once == Cardinality(IdsOf(cat)) = Len(cat) /\ Cardinality(IdsOf(list)) = Len(list)
Own == \A i \in 1..Len(cat) : cat[i].z0 = 10 * cat[i].id + 2
(* a pass that is over kept exactly the good ones *)
Exact == /\ (pass = "first" /\ pos > Len(list)) => IdsOf(cat) = {i \in IdsOf(list) : Good1(i)}
         /\ (pass = "like") => \A i \in IdsOf(list) : Good1(i)
         /\ (pass = "like" /\ pos > Len(list)) => IdsOf(cat) = {i \in IdsOf(list) : lk[i]}
(* the second iteration starts from the redshift of the first *)
Chain == (pass = "first" /\ it = 2) => nowz = 10 * list[pos].id + 1
Ends == <>(pass = "end")
=================================================================================
