----------------------------- MODULE PercolateMC -----------------------------
EXTENDS Percolate, TLC, FiniteSetsExt
Gals == 1..3
Tags == 1..3
MCOne == 2
Cut == 1
VARIABLES cent,    \* candidate -> its central galaxy
          rank,    \* candidate -> likelihood
          seen     \* candidate -> availability of its centre when it was processed
mvars == <<pvars, cent, rank, seen>>
Orders == {q \in [Tags -> Tags] : {q[i] : i \in Tags} = Tags}
Probs == [Gals -> 0..MCOne]
TakeSeq(p) == LET gs == {g \in Gals : p[g] > 0} IN [i \in 1..Cardinality(gs) |-> LET g == CHOOSE x \in gs : Cardinality({y \in gs : y < x}) = i - 1 IN <<g, p[g]>>]
MCInit == \E q \in Orders, c \in [Tags -> Gals], k \in [Tags -> 0..2] :
            /\ \A i \in 1..2 : k[q[i]] >= k[q[i + 1]]
            /\ PInit(Gals, q) /\ cent = c /\ rank = k /\ seen = [x \in Tags |-> -1]
See == seen' = [seen EXCEPT ![Head(queue)] = Free(taken, TRUE, cent[Head(queue)])]
MCNext == /\ queue # <<>> /\ See /\ UNCHANGED <<cent, rank>>
          /\ \/ Reject
             \/ /\ Free(taken, TRUE, cent[Head(queue)]) >= Cut
                /\ \E p \in Probs : p[cent[Head(queue)]] > 0 /\ Accept(TakeSeq(p))
MCSpec == MCInit /\ [][MCNext]_mvars
(* what the taken map says is exactly what the accepted clusters took *)
Ledger == \A g \in Gals : taken[g] = FoldSet(LAMBDA x, a : a + x.p, 0, {y \in gave : y.gal = g})
(* in total no galaxy is counted more than once: the effective memberships p * free add up to at most one *)
NoDoubleCount == \A g \in Gals : FoldSet(LAMBDA x, a : a + x.p * x.free, 0, {y \in gave : y.gal = g}) <= MCOne * MCOne
FreeRange == \A g \in Gals : Free(taken, TRUE, g) \in 0..MCOne
RejectedTakeNothing == \A i \in 1..Len(done) : ~done[i].accepted => ~\E y \in gave : y.tag = done[i].tag
Ranked == \A i, j \in 1..Len(done) : i < j => rank[done[i].tag] >= rank[done[j].tag]
ClaimedOut == \A i \in 1..Len(done) : done[i].accepted => seen[done[i].tag] >= Cut
(* a galaxy that is wholly taken is never the centre of a later output cluster *)
OneCentre == \A i, j \in 1..Len(done) : i < j /\ done[i].accepted /\ done[j].accepted /\ cent[done[i].tag] = cent[done[j].tag]
               => ~\E y \in gave : y.tag = done[i].tag /\ y.gal = cent[done[i].tag] /\ y.p = MCOne
Grows == [][\A g \in Gals : taken'[g] >= taken[g]]_mvars
==============================================================================
