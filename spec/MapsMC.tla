--------------------------------- MODULE MapsMC ---------------------------------
(* Reading a map for a region on a circular sky: the file is divided into coverage  *)
(* pixels, only those that meet the region widened by the border are read.  For     *)
(* every map, region, border and coverage resolution the region's answer is the     *)
(* whole map's answer wherever the position is in the region or its border, and     *)
(* elsewhere it is the whole map's answer or outside; the areas of the regions that *)
(* divide the sky add up to the whole area.  Conversion from a list of pixels in    *)
(* any order and numbering keeps every cell.                                        *)
EXTENDS Maps, TLC
CONSTANTS NPos
VARIABLES M, cov, regw, reg, bor, read, done
vars == <<M, cov, regw, reg, bor, read, done>>
Pos == 0..(NPos - 1)
D(a, b) == LET d == IF a > b THEN a - b ELSE b - a IN IF 2 * d > NPos THEN NPos - d ELSE d
RegPos(r) == {p \in Pos : p \div regw \in r}
Near(p) == p \in RegPos(reg) \/ (bor > 0 /\ \E x \in RegPos(reg) : D(p, x) <= bor)
(* the old numbering: another order of the same pixels *)
Old(p) == (5 * p + 3) % NPos
OldOf == [p \in Pos |-> Old(p)]
Back(o) == CHOOSE p \in Pos : Old(p) = o
Conv(S) == {[p |-> Back(c.p), f |-> c.f, d |-> c.d] : c \in {[p |-> OldOf[x.p], f |-> x.f, d |-> x.d] : x \in S}}
Init == /\ M \in [{0, 2, 7} -> {1, 4, -1}] \X [{9} -> {0, -1}]
        /\ cov \in {1, 2, 4, 8} /\ regw \in {2, 4, 8} /\ bor \in 0..3
        /\ reg \in SUBSET (0..(NPos \div regw - 1)) \ {{}}
        /\ Cardinality(reg) <= 2 /\ read = {} /\ done = FALSE
Cells == {[p |-> p, f |-> IF p = 9 THEN M[2][p] ELSE M[1][p], d |-> 10 + (p % 3)] : p \in {x \in {0, 2, 7} : M[1][x] >= 0} \cup {x \in {9} : M[2][x] >= 0}}
CovOf == {p \div cov : p \in {x \in Pos : Near(x)}}
Next == /\ ~done /\ done' = TRUE
        /\ read' = {c \in Cells : c.p \div cov \in CovOf}
        /\ UNCHANGED <<M, cov, regw, reg, bor>>
Spec == Init /\ [][Next]_vars
SameWhereSeen == done => \A p \in Pos : Near(p) => Frac(read, p) = Frac(Cells, p) /\ Value(read, p) = Value(Cells, p)
ElsewhereSameOrOutside == done => \A p \in Pos : Frac(read, p) \in {Frac(Cells, p), Outside}
AreasAddUp == done => \A v \in 9..13 :
    LET parts == 0..(NPos \div regw - 1)
        A(r) == DeeperArea({c \in Cells : c.p \div regw = r}, v)
        RECURSIVE Tot(_)
        Tot(S) == IF S = {} THEN 0 ELSE LET r == CHOOSE x \in S : TRUE IN A(r) + Tot(S \ {r})
    IN /\ Tot(parts) = DeeperArea(Cells, v)
       /\ DeeperArea(Cells, v + 1) <= DeeperArea(Cells, v)
       /\ bor = 0 => \A r \in reg : DeeperArea({c \in read : c.p \div regw = r}, v) = A(r)
ConversionKeeps == done => Conv(Cells) = Cells
=================================================================================
