------------------------------ MODULE Percolate ------------------------------
(* Percolation (C08, C09, C10): candidates are processed one after another in *)
(* rank order.  Every galaxy starts fully available; a cluster that is        *)
(* accepted takes its membership probability from the galaxies inside its     *)
(* masking limits, and what is left is what later clusters see.  A candidate  *)
(* whose central galaxy has been claimed, or that is too poor, is rejected    *)
(* and takes nothing.                                                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS One     \* the probability one, in the units of the model
VARIABLES taken,  \* galaxy -> probability taken by the clusters accepted so far
          queue,  \* candidates still to be processed, in rank order
          done,   \* what has been processed: [tag, accepted]
          gave    \* set of [tag, gal, p, free]: what each accepted cluster took and what was available to it
pvars == <<taken, queue, done, gave>>
Free(tk, masking, g) == IF ~masking THEN One ELSE IF tk[g] >= One THEN 0 ELSE One - tk[g]
Add(tk, take) == [g \in DOMAIN tk |-> IF \E i \in 1..Len(take) : take[i][1] = g
                                      THEN tk[g] + take[CHOOSE i \in 1..Len(take) : take[i][1] = g][2] ELSE tk[g]]
PInit(gals, q) == taken = [g \in gals |-> 0] /\ queue = q /\ done = <<>> /\ gave = {}
(* one candidate is processed: rejected, or accepted taking the pairs <<galaxy, probability>> *)
Reject == /\ queue # <<>>
          /\ done' = Append(done, [tag |-> Head(queue), accepted |-> FALSE])
          /\ queue' = Tail(queue) /\ UNCHANGED <<taken, gave>>
Accept(take) == /\ queue # <<>>
                /\ done' = Append(done, [tag |-> Head(queue), accepted |-> TRUE])
                /\ queue' = Tail(queue)
                /\ taken' = Add(taken, take)
                /\ gave' = gave \cup {[tag |-> Head(queue), gal |-> take[i][1], p |-> take[i][2], free |-> Free(taken, TRUE, take[i][1])] : i \in 1..Len(take)}
Output == SelectSeq(done, LAMBDA d : d.accepted)
==============================================================================
