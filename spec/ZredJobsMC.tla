------------------------------ MODULE ZredJobsMC ------------------------------
(* The protocol of a job: take the pixel's lock or fail; write its pixels one  *)
(* after the other; drop the lock; take the table's lock (wait, or give up if  *)
(* it is never released); look which files exist; look which locks exist;      *)
(* if all files and no locks, verify every file and publish; drop the lock.    *)
(* Any job may die anywhere; while nobody runs, the operator removes the locks *)
(* and starts the dead and failed jobs again.                                  *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS NJ, Crashes, LookLocksFirst
J == 1..NJ
VARIABLES pc, lock, tlock, file, sawf, sawl, table, crashes, first, bad
vars == <<pc, lock, tlock, file, sawf, sawl, table, crashes, first, bad>>
Init == /\ pc = [j \in J |-> "start"] /\ lock = [j \in J |-> FALSE] /\ tlock = 0
        /\ file = [j \in J |-> "none"] /\ sawf = [j \in J |-> FALSE] /\ sawl = [j \in J |-> FALSE] /\ table = FALSE /\ crashes = 0
        /\ first = TRUE /\ bad = FALSE
Up(j, s) == pc' = [pc EXCEPT ![j] = s]
TakeLock(j) == /\ pc[j] = "start"
               /\ IF lock[j] THEN Up(j, "failed") /\ UNCHANGED lock ELSE Up(j, "write") /\ lock' = [lock EXCEPT ![j] = TRUE]
               /\ UNCHANGED <<tlock, file, sawf, sawl, table, crashes, first, bad>>
Begin(j) == /\ pc[j] = "write" /\ file' = [file EXCEPT ![j] = "torn"] /\ Up(j, "flush")
            /\ UNCHANGED <<lock, tlock, sawf, sawl, table, crashes, first, bad>>
Flush(j) == /\ pc[j] = "flush" /\ file' = [file EXCEPT ![j] = "full"] /\ Up(j, "unlock")
            /\ UNCHANGED <<lock, tlock, sawf, sawl, table, crashes, first, bad>>
Unlock(j) == /\ pc[j] = "unlock" /\ lock' = [lock EXCEPT ![j] = FALSE] /\ Up(j, "tlock")
             /\ UNCHANGED <<tlock, file, sawf, sawl, table, crashes, first, bad>>
TLock(j) == /\ pc[j] = "tlock" /\ tlock = 0 /\ tlock' = j /\ Up(j, IF LookLocksFirst THEN "looklocks" ELSE "lookfiles")
            /\ UNCHANGED <<lock, file, sawf, sawl, table, crashes, first, bad>>
GiveUp(j) == /\ pc[j] = "tlock" /\ tlock # 0 /\ pc[tlock] = "dead" /\ Up(j, "ok")
             /\ UNCHANGED <<lock, tlock, file, sawf, sawl, table, crashes, first, bad>>
LookFiles(j) == /\ pc[j] = "lookfiles" /\ sawf' = [sawf EXCEPT ![j] = \A i \in J : file[i] # "none"]
                /\ Up(j, IF LookLocksFirst THEN "verify" ELSE "looklocks")
                /\ UNCHANGED <<lock, tlock, file, sawl, table, crashes, first, bad>>
LookLocks(j) == /\ pc[j] = "looklocks" /\ sawl' = [sawl EXCEPT ![j] = \A i \in J : ~lock[i]]
                /\ Up(j, IF LookLocksFirst THEN "lookfiles" ELSE "verify")
                /\ UNCHANGED <<lock, tlock, file, sawf, table, crashes, first, bad>>
Verify(j) == /\ pc[j] = "verify"
             /\ IF sawf[j] /\ sawl[j]
                THEN IF \A i \in J : file[i] = "full" THEN Up(j, "publish") /\ UNCHANGED tlock
                     ELSE Up(j, "failed") /\ tlock' = 0
                ELSE Up(j, "tunlock") /\ UNCHANGED tlock
             /\ UNCHANGED <<lock, file, sawf, sawl, table, crashes, first, bad>>
Publish(j) == /\ pc[j] = "publish" /\ table' = TRUE /\ Up(j, "tunlock")
              /\ bad' = (bad \/ (first /\ (\E i \in J : lock[i] \/ file[i] # "full")))
              /\ UNCHANGED <<lock, tlock, file, sawf, sawl, crashes, first>>
TUnlock(j) == /\ pc[j] = "tunlock" /\ tlock' = 0 /\ Up(j, "ok") /\ UNCHANGED <<lock, file, sawf, sawl, table, crashes, first, bad>>
Crash(j) == /\ crashes < Crashes /\ pc[j] \notin {"ok", "failed", "dead"} /\ Up(j, "dead") /\ crashes' = crashes + 1
            /\ UNCHANGED <<lock, tlock, file, sawf, sawl, table, first, bad>>
Quiet == \A j \in J : pc[j] \in {"ok", "failed", "dead"}
Operator == /\ Quiet /\ \E j \in J : pc[j] # "ok"
            /\ lock' = [j \in J |-> FALSE] /\ tlock' = 0 /\ first' = FALSE
            /\ pc' = [j \in J |-> IF pc[j] = "ok" THEN "ok" ELSE "start"]
            /\ UNCHANGED <<file, sawf, sawl, table, crashes, bad>>
Step(j) == TakeLock(j) \/ Begin(j) \/ Flush(j) \/ Unlock(j) \/ TLock(j) \/ GiveUp(j) \/ LookFiles(j) \/ LookLocks(j) \/ Verify(j) \/ Publish(j)
           \/ TUnlock(j)
Next == Operator \/ \E j \in J : Step(j) \/ Crash(j)
Spec == Init /\ [][Next]_vars /\ WF_vars(Operator) /\ \A j \in J : WF_vars(Step(j))
NeverEarly == ~bad
TableWhenDone == (\A j \in J : pc[j] = "ok") => table /\ \A j \in J : file[j] = "full"
Eventually == <>[](table /\ \A j \in J : pc[j] = "ok")
===============================================================================
