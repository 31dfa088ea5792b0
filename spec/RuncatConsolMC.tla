---------------------------- MODULE RuncatConsolMC ----------------------------
EXTENDS RuncatConsol, TLC
(* a cluster near a pixel border is measured by both neighbouring jobs; each   *)
(* cluster lies in exactly one pixel                                           *)
VARIABLES left
Clusters == 1..3
Files == 1..2
MCInit == RInit /\ \E home \in [Clusters -> Files], meas \in [Files -> SUBSET Clusters] :
             /\ \A c \in Clusters : c \in meas[home[c]]
             /\ left = [f \in Files |-> [todo |-> TRUE, rows |-> SelectSeq([c \in Clusters |-> [gid |-> c, id |-> c, inpix |-> home[c] = f, in |-> c \in meas[f], mem |-> <<c * 10, c * 10 + 1>>]], LAMBDA x : x.in)]]
MCNext == \/ \E f \in Files : left[f].todo /\ ReadFile(left[f].rows) /\ left' = [left EXCEPT ![f].todo = FALSE]
          \/ (\A f \in Files : ~left[f].todo) /\ Finish /\ UNCHANGED left
MCSpec == MCInit /\ [][MCNext]_<<rvars, left>>
(* each cluster once, whichever jobs measured it and in whatever order they are read *)
Once == done => Gids(rows) = Clusters /\ Len(rows) = Cardinality(Clusters)
Mems == done => MembersOf(rows) = UNION {{<<c, c * 10>>, <<c, c * 10 + 1>>} : c \in Clusters}
===============================================================================
