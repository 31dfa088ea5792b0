------------------------------ MODULE ZredJobs ------------------------------
(* Distributed redshift jobs (C07).  A job owns the table pixels of one run    *)
(* pixel; job instances start in phases (a phase ends when no instance runs;   *)
(* the operator then clears the locks of dead instances and repeats jobs).     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES own,     \* [job -> set of table pixels]
          file,    \* [pixel -> "none" | "torn" | "full"]
          ever,    \* pixels that were full at some time
          job,     \* [instance -> job] of this phase
          st,      \* [instance -> "ready" | "working" | "written" | "ok" | "failed" | "dead"]
          wrote,   \* [instance -> set of pixels it wrote]
          ph,      \* the phase: [again, dup, torn, crashed]
          tab      \* is the master table there
zvars == <<own, file, ever, job, st, wrote, ph, tab>>
Pixels == DOMAIN file
Clean == ~ph.again /\ ~ph.dup
Strict == Clean /\ ~ph.torn
Phase(a, d, tn) == /\ ph' = [again |-> a, dup |-> d, torn |-> tn, crashed |-> FALSE]
                   /\ UNCHANGED <<own, file, ever, job, st, wrote, tab>>
Jobs(f) == /\ job' = f /\ st' = [w \in DOMAIN f |-> "ready"] /\ wrote' = [w \in DOMAIN f |-> {}]
           /\ UNCHANGED <<own, file, ever, ph, tab>>
Alone(w) == \A v \in DOMAIN job : (v # w /\ job[v] = job[w]) => st[v] # "working"
Compute(w) == /\ st' = [st EXCEPT ![w] = "working"] /\ UNCHANGED <<own, file, ever, job, wrote, ph, tab>>
FileSeen(w, p, s) ==
  /\ file' = [file EXCEPT ![p] = s]
  /\ ever' = IF s = "full" THEN ever \cup {p} ELSE ever
  /\ wrote' = [wrote EXCEPT ![w] = IF s = "full" THEN @ \cup {p} ELSE @]
  /\ st' = [st EXCEPT ![w] = IF @ = "working" /\ own[job[w]] \subseteq wrote'[w] THEN "written" ELSE @]
  /\ UNCHANGED <<own, job, ph, tab>>
Crash(w) == /\ st' = [st EXCEPT ![w] = "dead"] /\ ph' = [ph EXCEPT !.crashed = TRUE] /\ UNCHANGED <<own, file, ever, job, wrote, tab>>
Done(w, ok) == /\ st' = [st EXCEPT ![w] = IF ok THEN "ok" ELSE "failed"] /\ UNCHANGED <<own, file, ever, job, wrote, ph, tab>>
MayFail(w) == ph.torn \/ ph.again \/ (ph.dup /\ ph.crashed) \/ \E v \in DOMAIN job : v # w /\ job[v] = job[w]
Publish == tab' = TRUE /\ UNCHANGED <<own, file, ever, job, st, wrote, ph>>
Complete(s) == \A p \in Pixels : s[p] = "full"
(* A file that is not complete is only excused by an instance that redoes it   *)
Redone(p) == \E w \in DOMAIN job : p \in own[job[w]] /\ st[w] \in {"working", "dead"}
(* Instances that have begun and not written all their pixels *)
Busy == {w \in DOMAIN job : st[w] = "working"}
===============================================================================
