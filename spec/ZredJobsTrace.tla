---------------------------- MODULE ZredJobsTrace ----------------------------
EXTENDS TraceKit, ZredJobs
S1 == Traces[t].steps[1]
TInit == /\ KitInit
         /\ own = [j \in 1..Len(S1.own) |-> ToSet(S1.own[j])]
         /\ file = [p \in 1..S1.pix |-> "none"] /\ ever = {} /\ job = <<>> /\ st = <<>> /\ wrote = <<>>
         /\ ph = [again |-> FALSE, dup |-> FALSE, torn |-> FALSE, crashed |-> FALSE] /\ tab = FALSE
TOpen == IsEvent("open") /\ Advance /\ UNCHANGED zvars
TPhase == IsEvent("phase") /\ Advance /\ Phase(Ev.again, Ev.dup, Ev.torn)
JobOf(w) == (CHOOSE i \in 1..Len(Ev.jobs) : Ev.jobs[i].w = w)
TJobs == IsEvent("jobs") /\ Advance /\ Jobs([w \in {Ev.jobs[i].w : i \in 1..Len(Ev.jobs)} |-> Ev.jobs[JobOf(w)].job])
TCompute == /\ IsEvent("compute") /\ Advance /\ Compute(Ev.w)
            /\ Clause("a job computes a pixel that is not its own", Ev.pix \in own[job[Ev.w]])
            /\ Clause("two jobs run on the same pixel at once", Alone(Ev.w))
TFile == /\ IsEvent("file") /\ Advance /\ FileSeen(Ev.w, Ev.pix, Ev.st)
         /\ Clause("a job wrote another job's file", Ev.pix \in own[job[Ev.w]] \/ st[Ev.w] = "dead")
         /\ Clause("a living job left an incomplete redshift file", Ev.st = "full" \/ ph.crashed)
TCrash == IsEvent("crash") /\ Advance /\ Crash(Ev.w)
TDone == /\ IsEvent("done") /\ Advance /\ Done(Ev.w, Ev.res = "ok")
         /\ Clause("a job failed without cause", Ev.res = "ok" \/ MayFail(Ev.w))
         /\ Clause("a job ended well without writing its pixels", Ev.res = "ok" => own[job[Ev.w]] \subseteq ever)
TPublish ==
  /\ IsEvent("publish") /\ Advance /\ Publish
  /\ Clause("the master table is not in the galaxy table's order, or counts differ", Ev.tab.ok)
  /\ Clause("the master table was published before all redshift files were complete",
            \A p \in Pixels : Ev.files[p] = "full" \/ (~Strict /\ Redone(p)))
  /\ Clause("the master table was published before all redshift files had been written", ever = Pixels)
  /\ Clause("the master table was published while a job held its pixel", Strict => (Ev.locks = <<>> /\ Busy = {}))
TOver ==
  /\ IsEvent("over") /\ Advance /\ UNCHANGED zvars
  /\ Clause("a job hung", Ev.finished /\ Ev.hung = 0)
  /\ Clause("lock files left behind although no job died", ph.crashed \/ Ev.lockfiles = 0)
  /\ Clause("all jobs completed but the master table does not exist",
            (Ev.todo = 0 \/ Ev.last) => (Ev.tab.present /\ Ev.tab.ok /\ Complete(Ev.files)))
TNext == TOpen \/ TPhase \/ TJobs \/ TCompute \/ TFile \/ TCrash \/ TDone \/ TPublish \/ TOver
TSpec == TInit /\ [][TNext]_<<zvars, t, l>>
===============================================================================
