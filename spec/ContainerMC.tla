------------------------------ MODULE ContainerMC ------------------------------
(* All histories of a few operations on two catalogues and one file.  Column   *)
(* "b" is built as "a" + 10 in every row; no operation but an assignment to    *)
(* them may separate the two, and a third column may be assigned freely.       *)
EXTENDS Container, TLC
CONSTANTS MaxOps, MaxRows
VARIABLES obj, file, nops, last
vars == <<obj, file, nops, last>>
Wid == [n \in {"a", "b", "c"} |-> 1]
Row(i) == [a |-> <<i>>, b |-> <<i + 10>>]
Init == /\ obj = <<Merge(<<Cat({"a"}, <<[a |-> <<1>>], [a |-> <<2>>]>>), Cat({"b"}, <<[b |-> <<11>>], [b |-> <<12>>]>>)>>), Cat({"a", "b"}, <<Row(3)>>)>>
        /\ file = Cat({}, <<>>) /\ nops = 0 /\ last = "init"
S == 1..2
Put(i, x, o) == obj' = [obj EXCEPT ![i] = x] /\ UNCHANGED file /\ last' = o
Idx(x) == UNION {[1..k -> 1..Len(x.rows)] : k \in 0..2}
Op == \/ \E i, j \in S : CanAppend(obj[i], obj[j]) /\ Len(obj[i].rows) + Len(obj[j].rows) <= MaxRows /\ Put(i, AppendAll(obj[i], obj[j]), "append")
      \/ \E i \in S : Len(obj[i].rows) < MaxRows /\ Put(i, ExtendBy(obj[i], 1, Wid), "extend")
      \/ \E i, j \in S : \E idx \in Idx(obj[i]) : Put(j, Pick(obj[i], idx), "pick")
      \/ \E i \in S : CanAdd(obj[i], {"c"}) /\ Put(i, AddFields(obj[i], {"c"}, Wid), "add")
      \/ \E i \in S : "c" \in obj[i].cols /\ \E k \in 1..Len(obj[i].rows) : Put(i, SetCell(obj[i], "c", k, <<7>>), "cell")
      \/ \E i \in S : "c" \in obj[i].cols /\ Put(i, SetField(obj[i], "c", [k \in 1..Len(obj[i].rows) |-> <<k>>]), "field")
      \/ \E i \in S : \E idx \in Idx(obj[i]) : file' = Pick(obj[i], idx) /\ last' = "write" /\ UNCHANGED obj
      \/ \E i \in S : file.cols # {} /\ Put(i, file, "read")
Next == nops < MaxOps /\ nops' = nops + 1 /\ Op
Spec == Init /\ [][Next]_vars
Whole(x) == \A k \in 1..Len(x.rows) : LET r == x.rows[k] IN r.b[1] = r.a[1] + 10 \/ (r.a[1] = 0 /\ r.b[1] = 0)
RowsKept == \A i \in S : WellFormed(obj[i]) /\ Whole(obj[i])
FileKept == file.cols # {} => WellFormed(file) /\ Whole(file)
===============================================================================
