------------------------------- MODULE LockTrace -------------------------------
(* Recorded executions of contenders; the moment a lock is taken is internal, *)
(* so Acquire may happen at any point of a request.                           *)
EXTENDS TraceKit, Lock
VARIABLE done
S1 == Traces[t].steps[1]
TInit == KitInit /\ LInit(1..S1.n, IF S1.pre THEN S1.n + 1 ELSE 0) /\ done = FALSE
Go == Advance /\ UNCHANGED done
TOpen == IsEvent("open") /\ UNCHANGED kvars /\ Go
TReq == IsEvent("req") /\ Ask(Ev.w, Ev.block, Ev.maxtry) /\ Go
THid == More /\ UNCHANGED <<t, l, done>> /\ \E w \in W : Acquire(w)
TTry == IsEvent("try") /\ Fail(Ev.w) /\ Go
TNap == IsEvent("nap") /\ Nap(Ev.w) /\ Go
TRet == IsEvent("ret") /\ Go /\ IF Ev.ok THEN Grant(Ev.w) ELSE Refuse(Ev.w)
TRel == IsEvent("rel") /\ Release(Ev.w) /\ Go
TCrash == IsEvent("crash") /\ Die(Ev.w) /\ Go
TDisk == IsEvent("disk") /\ Ev.ex = (owner # 0) /\ UNCHANGED kvars /\ Go
Dead == {w \in W : pc[w] = "dead"}
TEnd == IsEvent("end") /\ UNCHANGED kvars /\ Go
        /\ Clause("a contender failed or never returned", Ev.finished)
        /\ Clause("temporary files left behind", Ev.temps <= Cardinality(Dead))
        /\ Clause("a file or lock of somebody else was removed or altered", Ev.other)
TNext == TOpen \/ TReq \/ THid \/ TTry \/ TNap \/ TRet \/ TRel \/ TCrash \/ TDisk \/ TEnd
TSpec == TInit /\ [][TNext]_<<kvars, done, t, l>>
===============================================================================
