------------------------------- MODULE CentreMC -------------------------------
(* All rankings of up to four candidates: the likelihoods (tenths) decide the *)
(* order, the best maxcen are listed, and the probabilities follow.           *)
EXTENDS Centre, TLC
VARIABLES like, maxcen, listed, done
v == <<like, maxcen, listed, done>>
N == 4
One == 10
MCInit == like \in [1..N -> 0..9] /\ maxcen \in 1..4 /\ listed = <<>> /\ done = FALSE
Left == {i \in 1..N : like[i] > 0 /\ \A k \in 1..Len(listed) : listed[k] # i}
Take == /\ ~done /\ Len(listed) < maxcen
        /\ \E i \in Left : (\A j \in Left : like[i] >= like[j]) /\ listed' = Append(listed, i)
        /\ UNCHANGED <<like, maxcen, done>>
Stop == /\ ~done /\ (Len(listed) = maxcen \/ Left = {})
        /\ done' = TRUE /\ UNCHANGED <<like, maxcen, listed>>
MCNext == Take \/ Stop
MCSpec == MCInit /\ [][MCNext]_v
C == [k \in 1..Len(listed) |-> like[listed[k]]]
W == [k \in 1..Len(listed) |-> Weight(C, k, One)]
RECURSIVE Prod(_, _)
Prod(c, i) == IF i > Len(c) THEN 1 ELSE (One - c[i]) * Prod(c, i + 1)
RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Sum(s, i + 1)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Ranked == NonIncreasing(C) /\ NonIncreasing(W)
Sound == done => /\ \A k \in 1..Len(listed) : like[listed[k]] > 0 /\ W[k] > 0
                 /\ Cardinality({listed[k] : k \in 1..Len(listed)}) = Len(listed)
                 /\ \A i \in 1..N : (\A k \in 1..Len(listed) : listed[k] # i) => (like[i] = 0 \/ Len(listed) = maxcen)
(* none or exactly one being the centre are exclusive: together at most certain *)
MissAdds == done => Sum(W, 1) + Prod(C, 1) <= Pow(One, Len(listed))
===============================================================================
