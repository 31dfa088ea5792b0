------------------------------ MODULE IngestParMC ------------------------------
(* The protocol of the implementation for two or three workers that share      *)
(* two pixels: take the pixel's lock (wait if it is held), look whether the    *)
(* file exists, create it or append to it, drop the lock; afterwards           *)
(* finalise: take the table's lock or leave, count the rows of the files,      *)
(* publish, drop the lock.  Any worker may die anywhere.  Appending is two     *)
(* steps (open, flush), so that without the lock rows would be lost.           *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS N, Crashes, Locked
W == 1..N
P == 1..2
None == 99
VARIABLES lock, file, buf, pc, at, tlock, table, crashed, acked
vars == <<lock, file, buf, pc, at, tlock, table, crashed, acked>>
Absent == <<None>>
Init == /\ lock = [p \in P |-> 0] /\ file = [p \in P |-> Absent] /\ buf = [w \in W |-> <<>>]
        /\ pc = [w \in W |-> "lock"] /\ at = [w \in W |-> 1] /\ tlock = 0 /\ table = <<>> /\ crashed = {} /\ acked = {}
(* every worker visits both pixels, odd ones in the order 1,2 and even ones 2,1 *)
Pix(w) == IF w % 2 = 1 THEN at[w] ELSE 3 - at[w]
Up(w, s) == pc' = [pc EXCEPT ![w] = s]
Lock(w) == /\ pc[w] = "lock" /\ (Locked => lock[Pix(w)] = 0)
           /\ lock' = [lock EXCEPT ![Pix(w)] = IF Locked THEN w ELSE 0]
           /\ Up(w, "look") /\ UNCHANGED <<file, buf, at, tlock, table, crashed, acked>>
Look(w) == /\ pc[w] = "look" /\ Up(w, IF file[Pix(w)] = Absent THEN "create" ELSE "open")
           /\ UNCHANGED <<lock, file, buf, at, tlock, table, crashed, acked>>
Create(w) == /\ pc[w] = "create" /\ file' = [file EXCEPT ![Pix(w)] = <<w>>] /\ Up(w, "unlock")
             /\ UNCHANGED <<lock, buf, at, tlock, table, crashed, acked>>
OpenRW(w) == /\ pc[w] = "open" /\ buf' = [buf EXCEPT ![w] = file[Pix(w)]] /\ Up(w, "flush")
             /\ UNCHANGED <<lock, file, at, tlock, table, crashed, acked>>
Flush(w) == /\ pc[w] = "flush" /\ file' = [file EXCEPT ![Pix(w)] = Append(buf[w], w)] /\ Up(w, "unlock")
            /\ UNCHANGED <<lock, buf, at, tlock, table, crashed, acked>>
Unlock(w) == /\ pc[w] = "unlock" /\ lock' = [lock EXCEPT ![Pix(w)] = 0] /\ acked' = acked \cup {<<w, Pix(w)>>}
             /\ IF at[w] = 1 THEN at' = [at EXCEPT ![w] = 2] /\ Up(w, "lock") ELSE Up(w, "wait") /\ UNCHANGED at
             /\ UNCHANGED <<file, buf, tlock, table, crashed>>
(* a worker that waits for a dead worker's lock gives up with an error *)
GiveUp(w) == /\ pc[w] = "lock" /\ lock[Pix(w)] \in crashed /\ Up(w, "error")
             /\ UNCHANGED <<lock, file, buf, at, tlock, table, crashed, acked>>
Ready == \A w \in W : pc[w] \notin {"lock", "look", "create", "open", "flush", "unlock"}
Enter(w) == /\ pc[w] = "wait" /\ Ready
            /\ IF table # <<>> THEN Up(w, "end") /\ UNCHANGED tlock
               ELSE IF tlock # 0 THEN Up(w, "end") /\ UNCHANGED tlock
               ELSE Up(w, "publish") /\ tlock' = w
            /\ UNCHANGED <<lock, file, buf, at, table, crashed, acked>>
Publish(w) == /\ pc[w] = "publish" /\ table' = [p \in P |-> IF file[p] = Absent THEN 0 ELSE Len(file[p])] /\ Up(w, "tunlock")
              /\ UNCHANGED <<lock, file, buf, at, tlock, crashed, acked>>
TUnlock(w) == /\ pc[w] = "tunlock" /\ tlock' = 0 /\ Up(w, "end") /\ UNCHANGED <<lock, file, buf, at, table, crashed, acked>>
Crash(w) == /\ Cardinality(crashed) < Crashes /\ pc[w] \notin {"dead", "end", "error"} /\ Up(w, "dead") /\ crashed' = crashed \cup {w}
            /\ UNCHANGED <<lock, file, buf, at, tlock, table, acked>>
Next == \E w \in W : Lock(w) \/ Look(w) \/ Create(w) \/ OpenRW(w) \/ Flush(w) \/ Unlock(w) \/ GiveUp(w) \/ Enter(w) \/ Publish(w)
                     \/ TUnlock(w) \/ Crash(w)
Spec == Init /\ [][Next]_vars
InFile(p) == IF file[p] = Absent THEN {} ELSE {file[p][i] : i \in 1..Len(file[p])}
AckedKept == \A x \in acked : x[1] \in InFile(x[2])
NoDuplicate == \A p \in P : file[p] = Absent \/ Cardinality(InFile(p)) = Len(file[p])
TableExact == table # <<>> => \A p \in P : table[p] = Cardinality(InFile(p))
Over == \A w \in W : pc[w] \in {"end", "dead", "error"}
Complete == (Over /\ crashed = {}) =>
   /\ \A p \in P : InFile(p) = W /\ lock[p] = 0
   /\ tlock = 0 /\ table = [p \in P |-> N]
ErrorOnlyAfterDeath == (\E w \in W : pc[w] = "error") => crashed # {}
===============================================================================
