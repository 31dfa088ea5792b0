---------------------------- MODULE ContainerTrace ----------------------------
EXTENDS TraceKit, Container
VARIABLES obj, file
cvars == <<obj, file>>
Wid == LET w == Traces[t].steps[1].wid IN [n \in {w[i].n : i \in 1..Len(w)} |-> w[CHOOSE i \in 1..Len(w) : w[i].n = n].w]
Aug == ToSet(Traces[t].steps[1].aug)
RowOf(names, row) == [n \in ToSet(names) |-> row[CHOOSE k \in 1..Len(names) : names[k] = n]]
CatOf(x) == Cat(ToSet(x.names), [i \in 1..Len(x.rows) |-> RowOf(x.names, x.rows[i])])
(* what every cluster catalogue has in addition *)
Full(x) == IF Aug \subseteq x.cols THEN x ELSE AddFields(x, Aug \ x.cols, Wid)
TInit == KitInit /\ obj = <<>> /\ file = <<>>
TOpen == IsEvent("open") /\ Advance /\ UNCHANGED cvars
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Arrs == [i \in 1..Len(Ev.arrays) |-> CatOf(Ev.arrays[i])]
(* the catalogue after a permitted operation, and whether it is permitted *)
Permitted == CASE Ev.op = "build" -> CanMerge(Arrs)
               [] Ev.op = "merge" -> CanMerge(<<obj[Ev.o], obj[Ev.p]>>)
               [] Ev.op = "append" -> CanAppend(obj[Ev.o], obj[Ev.p])
               [] Ev.op = "setfield" -> Len(Ev.vals) = Len(obj[Ev.o].rows)
               [] Ev.op = "addfields" -> CanAdd(obj[Ev.o], ToSet(Ev.names))
               [] OTHER -> TRUE
Target == IF Ev.op \in {"build", "merge", "pick", "read"} THEN Ev.to ELSE Ev.o
NewArr == Cat(obj[Ev.o].cols, [i \in 1..Len(Ev.rows) |-> RowOf(Ev.all[(CHOOSE k \in 1..Len(Ev.all) : Ev.all[k].o = Ev.o)].names, Ev.rows[i])])
Value == CASE Ev.op = "build" -> Full(Merge(Arrs))
           [] Ev.op = "merge" -> Merge(<<obj[Ev.o], obj[Ev.p]>>)
           [] Ev.op = "append" -> AppendAll(obj[Ev.o], obj[Ev.p])
           [] Ev.op = "appendarr" -> AppendAll(obj[Ev.o], NewArr)
           [] Ev.op = "extend" -> ExtendBy(obj[Ev.o], Ev.n, Wid)
           [] Ev.op = "pick" -> Pick(obj[Ev.o], Ev.idx)
           [] Ev.op = "setfield" -> SetField(obj[Ev.o], Ev.name, Ev.vals)
           [] Ev.op = "setcell" -> SetCell(obj[Ev.o], Ev.name, Ev.i, Ev.val)
           [] Ev.op = "addfields" -> AddFields(obj[Ev.o], ToSet(Ev.names), Wid)
           [] Ev.op = "read" -> Full(IF Ev.every THEN file[Ev.f] ELSE Pick(file[Ev.f], Ev.idx))
           [] OTHER -> obj[Ev.o]
Done == Permitted /\ Ev.res = "ok"
TOp ==
  /\ More /\ Ev.op \notin {"open", "entry"} /\ Advance
  /\ Clause("a permitted operation was refused: " \o Ev.op, Permitted => (Ev.res = "ok" \/ (Ev.op = "append" /\ ~Ev.order)
                                                                               \/ (Ev.op = "write" /\ Ev.f \in DOMAIN file /\ ~Ev.clobber)))
  /\ Clause("an operation that must be refused was accepted: " \o Ev.op, (~Permitted) => Ev.res # "ok")
  /\ obj' = IF Done /\ Ev.op \notin {"write", "elem"} THEN With(obj, Target, Value) ELSE obj
  /\ file' = IF Done /\ Ev.op = "write" /\ (Ev.clobber \/ Ev.f \notin DOMAIN file) THEN With(file, Ev.f, Pick(obj[Ev.o], Ev.idx)) ELSE file
  /\ Clause("content differs from the list of records after: " \o Ev.op,
            /\ {Ev.all[k].o : k \in 1..Len(Ev.all)} = DOMAIN obj'
            /\ \A k \in 1..Len(Ev.all) : CatOf(Ev.all[k]) = obj'[Ev.all[k].o])
  /\ Clause("length, elements or other columns disagree with the columns after: " \o Ev.op, \A k \in 1..Len(Ev.all) : Ev.all[k].agree)
  /\ Clause("an element is not the row", Ev.op = "elem" => (Ev.type /\
        LET x == Ev.all[(CHOOSE k \in 1..Len(Ev.all) : Ev.all[k].o = Ev.o)] IN RowOf(x.names, Ev.vals) = obj[Ev.o].rows[Ev.i]))
  /\ Clause("a selection has another class", (Ev.op = "pick" /\ Ev.res = "ok") => Ev.type)
(* one-row objects *)
Pairs(s) == [n \in {s[i].n : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i].n = n].v]
TEntry ==
  /\ IsEvent("entry") /\ Advance /\ UNCHANGED cvars
  /\ Clause("an entry was made from other than one row, or refused from one", (Ev.size = 1) = (Ev.res = "ok"))
  /\ Ev.res = "ok" =>
     LET r0 == RowOf(Ev.names, Ev.rows[1])
         r1 == IF Ev.name \in DOMAIN r0 THEN [r0 EXCEPT ![Ev.name] = Ev.val] ELSE r0
         r2 == Join(r1, [n \in {Ev.added[i].n : i \in 1..Len(Ev.added)} |-> ZeroCell(Ev.added[CHOOSE i \in 1..Len(Ev.added) : Ev.added[i].n = n].w)])
     IN /\ Clause("an entry does not show its row", RowOf(Ev.names, Ev.seen) = r0)
        /\ Clause("an entry changed other than as assigned", Ev.fres = "ok" /\ Pairs(Ev.after) = r2)
        /\ Clause("an entry was written wrongly", Pairs(Ev.file) = r2)
TNext == TOpen \/ TOp \/ TEntry
TSpec == TInit /\ [][TNext]_<<cvars, t, l>>
===============================================================================
