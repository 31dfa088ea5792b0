-------------------------------- MODULE RandomsMC --------------------------------
(* Placing: batches of positions; the clusters of a batch wait in line, each is      *)
(* placed at the next position that allows it.  Weighting: the weights of a source's *)
(* surviving draws add up to its draws.                                              *)
EXTENDS Randoms, TLC
CONSTANTS Want, NBatch, Size
VARIABLES rows, batch, draws
vars == <<rows, batch, draws>>
C == {[id |-> 4, lam |-> 1, z |-> 1, sc |-> 1], [id |-> 9, lam |-> 2, z |-> 2, sc |-> 2]}
Places == {[f |-> 0, zmax |-> 3], [f |-> 2, zmax |-> 2], [f |-> 4, zmax |-> 3], [f |-> 4, zmax |-> 1]}
RECURSIVE Place(_, _, _)
Place(P, L, k) == IF P = <<>> THEN <<>>
                  ELSE IF L[k].z < Head(P).zmax
                       THEN <<[src |-> L[k].id, z |-> L[k].z, lam |-> L[k].lam, f |-> Head(P).f, zmax |-> Head(P).zmax]>> \o Place(Tail(P), L, k + 1)
                       ELSE Place(Tail(P), L, k)
Number(s, from) == [i \in 1..Len(s) |-> [id |-> from + i, src |-> s[i].src, z |-> s[i].z, lam |-> s[i].lam, f |-> s[i].f, zmax |-> s[i].zmax]]
Draw == [src : {4, 9}, z : {1}, lam : {1, 2}, sc : {1, 2}, mf : {0, 9}]
Init == rows = <<>> /\ batch = 0 /\ draws \in {<<>>} \cup {<<a, b, c>> : a, b, c \in Draw}
(* positions are accepted with their coverage: never where it is 0 *)
Next == \/ /\ batch < NBatch /\ Len(rows) < Want /\ batch' = batch + 1 /\ UNCHANGED draws /\ draws = <<>>
           /\ \E P \in UNION {[1..k -> {p \in Places : p.f > 0}] : k \in 0..Size} : \E L \in [1..Size -> C] :
                LET s == Place(P, L, 1)
                    m == IF Len(s) > Want - Len(rows) THEN Want - Len(rows) ELSE Len(s)
                IN rows' = rows \o Number(SubSeq(s, 1, m), Len(rows))
Spec == Init /\ [][Next]_vars
Placed == \A i \in 1..Len(rows) : InFootprint(rows[i]) /\ InVolume(rows[i]) /\ FromOne(rows[i], C) /\ rows[i].id = i
NotMore == Len(rows) <= Want
Q == {[ml |-> m, l0 |-> a, l1 |-> b, z0 |-> 0, z1 |-> 5] : m \in 0..1, a \in 0..1, b \in 1..2}
RECURSIVE Total(_, _, _, _)
Total(S, q, ss, k) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN (6 * Weight(i, draws, C, q, ss, 5)[1]) \div Weight(i, draws, C, q, ss, 5)[2] + Total(S \ {i}, q, ss, k)
WeightsAddUp == \A q \in Q : \A ss \in BOOLEAN : \A s \in {4, 9} :
    LET S == OfSource(Survivors(draws, C, q, ss, 5), draws, s)
    IN S # {} => Total(S, q, ss, 0) = 6 * Cardinality(OfSource(Considered(draws, C, q, ss), draws, s))
==================================================================================
