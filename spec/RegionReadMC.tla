----------------------------- MODULE RegionReadMC -----------------------------
(* The reading algorithm on a circular sky of 16 positions with table pixels of *)
(* two positions: select the table pixels that meet the region widened by the   *)
(* border, read their files, trim to the border, apply the cuts.  For every     *)
(* region, border, set of galaxies, cut and set of missing redshift files the   *)
(* result is an Answer; reading with the cuts equals reading, then cutting.     *)
EXTENDS RegionRead, TLC
CONSTANTS NPos
VARIABLES occ, reg, bor, cut, zmiss, done
vars == <<occ, reg, bor, cut, zmiss, done>>
Pos == 0..(NPos - 1)
Pix(p) == p \div 2
D(a, b) == LET d == IF a > b THEN a - b ELSE b - a IN IF 2 * d > NPos THEN NPos - d ELSE d
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
DistTo(p, R) == IF R = {} THEN 0 ELSE MinOf({D(p, x) : x \in R})
RegPos == {p \in Pos : (p \div 4) \in reg}
Q == [region |-> reg # {}, border |-> bor, tol |-> 0, slack |-> 0, cut |-> cut # 0, lo |-> 0, hi |-> 2 + cut, cmax |-> cut, zred |-> zmiss # {9}]
Gal == {[gid |-> p, inside |-> p \in RegPos, dist |-> DistTo(p, RegPos), pix |-> Pix(p), refmag |-> 1 + (p % 4), chisq |-> p % 3,
         z |-> Pix(p) \notin zmiss] : p \in occ}
Files == {x \in {Pix(p) : p \in Pos} : reg = {} \/ \E p \in Pos : Pix(p) = x /\ (p \in RegPos \/ (bor > 0 /\ DistTo(p, RegPos) <= bor))}
Trim(S) == {g \in S : reg = {} \/ bor = 0 \/ g.inside \/ g.dist <= bor}
ReadAll(q) == Trim({g \in Gal : g.pix \in Files /\ (q.zred => g.z)})
ReadCut(q) == {g \in {h \in Gal : h.pix \in Files /\ (q.zred => h.z) /\ InCuts(h, q)} : g \in Trim(Gal)}
Init == /\ occ \in {{0, 1, 2, 3, 5, 6, 9, 10, 13, 14, 15}, {0, 4, 8, 12}, {7, 8}, Pos}
        /\ reg \in {{}, {0}, {1}, {3}} /\ bor \in 0..3 /\ cut \in 0..2 /\ zmiss \in {{9}, {}, {0}, {1, 4}, {3, 7}} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<occ, reg, bor, cut, zmiss>>
Spec == Init /\ [][Next]_vars
NoCut == [Q EXCEPT !.cut = FALSE]
Correct == done => /\ Answer(Gal, ReadAll(NoCut), NoCut)
                   /\ Answer(Gal, ReadCut(Q), Q)
                   /\ ReadCut(Q) = {g \in ReadAll(NoCut) : InCuts(g, Q)}
===============================================================================
