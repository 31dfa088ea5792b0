------------------------------ MODULE Container ------------------------------
(* Catalogue containers (C22) as lists of records.  A catalogue is a set of    *)
(* columns and a sequence of rows; a row maps every column to its cell, and a  *)
(* cell is a sequence of numbers (one for a scalar).                           *)
EXTENDS Integers, Sequences, FiniteSets
Cat(c, r) == [cols |-> c, rows |-> r]
WellFormed(x) == \A i \in 1..Len(x.rows) : DOMAIN x.rows[i] = x.cols
ZeroCell(w) == [k \in 1..w |-> 0]
ZeroRow(c, wid) == [n \in c |-> ZeroCell(wid[n])]
Join(f, g) == [n \in DOMAIN f \cup DOMAIN g |-> IF n \in DOMAIN f THEN f[n] ELSE g[n]]
(* side by side: same length, no common column *)
CanMerge(s) == /\ \A i, j \in 1..Len(s) : Len(s[i].rows) = Len(s[j].rows)
               /\ \A i, j \in 1..Len(s) : i # j => s[i].cols \cap s[j].cols = {}
RECURSIVE Merge(_)
Merge(s) == IF Len(s) = 1 THEN s[1]
            ELSE LET m == Merge(Tail(s)) IN Cat(s[1].cols \cup m.cols, [i \in 1..Len(s[1].rows) |-> Join(s[1].rows[i], m.rows[i])])
CanAppend(x, y) == x.cols = y.cols
AppendAll(x, y) == Cat(x.cols, x.rows \o y.rows)
ExtendBy(x, n, wid) == Cat(x.cols, x.rows \o [i \in 1..n |-> ZeroRow(x.cols, wid)])
Pick(x, idx) == Cat(x.cols, [k \in 1..Len(idx) |-> x.rows[idx[k]]])
SetField(x, n, vals) == Cat(x.cols, [i \in 1..Len(x.rows) |-> [x.rows[i] EXCEPT ![n] = vals[i]]])
SetCell(x, n, i, v) == Cat(x.cols, [x.rows EXCEPT ![i] = [@ EXCEPT ![n] = v]])
CanAdd(x, new) == x.cols \cap new = {}
AddFields(x, new, wid) == Cat(x.cols \cup new, [i \in 1..Len(x.rows) |-> Join(x.rows[i], ZeroRow(new, wid))])
===============================================================================
