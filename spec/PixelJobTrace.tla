---------------------------- MODULE PixelJobTrace ----------------------------
(* Judges recorded histories of pixel jobs: start, stage calls, writes, end.  *)
EXTENDS TraceKit, PixelJob
VARIABLES gone,
          none      \* stages of this run that found nothing
S1 == Traces[t].steps[1]
JobSet == 1..Len(S1.jobs)
Cur == Ev.job
TInit == /\ KitInit /\ gone = FALSE /\ none = {}
         /\ Setup([j \in JobSet |-> [n |-> S1.jobs[j].n, mem |-> S1.jobs[j].mem]],
                  [j \in JobSet |-> S1.jobs[j].files], [j \in JobSet |-> S1.jobs[j].memfile])
TSetup == IsEvent("setup") /\ Advance /\ UNCHANGED <<pvars, gone, none>>
TStart == IsEvent("start") /\ (IF gone THEN UNCHANGED pvars ELSE Start(Cur)) /\ UNCHANGED gone /\ none' = {} /\ Advance
TEmpty == IsEvent("empty") /\ none' = none \cup {Ev.s} /\ UNCHANGED <<pvars, gone>> /\ Advance

Off(why) == Clause(why, gone) /\ gone' = TRUE /\ UNCHANGED pvars

(* skips are silent: the stage called must be the first missing one from here on *)
NextMissing(j) == LET m == {s \in 1..jobs[j].n : file[j][s] = 0 /\ s \notin used[j]}
                  IN IF m = {} THEN 0 ELSE CHOOSE s \in m : \A q \in m : s <= q
TStage ==
  /\ IsEvent("stage")
  /\ Clause("stage run for another pixel, resolution or border", Ev.place)
  /\ Clause("stage did not get the previous stage's output of the same pixel as input", Ev.inp)
  /\ Clause("stage settings differ from the configuration", Ev.opts)
  /\ UNCHANGED none
  /\ Clause("a stage is run after one that found nothing", none = {})
  /\ IF ~gone /\ pc[Cur] # "idle" /\ NextMissing(Cur) = Ev.s
     THEN /\ at' = [at EXCEPT ![Cur] = Ev.s]      \* Skip* then Compute
          /\ pc' = [pc EXCEPT ![Cur] = "calc"]
          /\ used' = [used EXCEPT ![Cur] = @ \cup {Ev.s}]
          /\ UNCHANGED <<jobs, file, mem, run, gone>>
     ELSE Off("stage recomputed, repeated or out of order")
  /\ Advance
ObsFile(j) == Ev.disk[j].files
ObsMem(j) == Ev.disk[j].mem
(* What the files may be when job j's run ends: every stage it computed is   *)
(* written, except that a crash may have lost the last one.                  *)
After(j, lost) == [s \in 1..jobs[j].n |-> IF s \in used[j] \ (lost \cup none) THEN run[j] ELSE file[j][s]]
Lost(j) == IF pc[j] = "calc" THEN {at[j]} ELSE {}
TEnd ==
  /\ IsEvent("end") /\ UNCHANGED none
  /\ Clause("a file was written outside the output path or under another name", Ev.stray = "")
  /\ IF gone THEN UNCHANGED <<pvars, gone>>
     ELSE /\ Clause("job failed without a crash", ~Ev.crashed => Ev.res = "ok")
          /\ Clause("a stage was not run",
                    ~Ev.crashed /\ none = {} => \A s \in 1..jobs[Cur].n : file[Cur][s] # 0 \/ s \in used[Cur])
          /\ Clause("files on disk differ from what the job wrote",
                    \/ ObsFile(Cur) = After(Cur, {})
                    \/ Ev.crashed /\ ObsFile(Cur) = After(Cur, Lost(Cur)))
          /\ Clause("members on disk differ from what the job wrote",
                    jobs[Cur].mem =>
                      IF jobs[Cur].n \in used[Cur] \ none
                      THEN ObsMem(Cur) = run[Cur] \/ (Ev.crashed /\ ObsMem(Cur) = mem[Cur])
                      ELSE ObsMem(Cur) = mem[Cur])
          /\ Clause("a catalogue is present without its own members",
                    jobs[Cur].mem /\ ObsFile(Cur)[jobs[Cur].n] # 0 => ObsMem(Cur) = ObsFile(Cur)[jobs[Cur].n])
          /\ \A j \in JobSet \ {Cur} :
               Clause("another job's files changed", ObsFile(j) = file[j] /\ ObsMem(j) = mem[j])
          /\ Clause("a file holds another pixel's data", \A j \in JobSet : Ev.disk[j].own)
          /\ file' = [file EXCEPT ![Cur] = ObsFile(Cur)]
          /\ mem' = [mem EXCEPT ![Cur] = ObsMem(Cur)]
          /\ at' = [at EXCEPT ![Cur] = 0] /\ pc' = [pc EXCEPT ![Cur] = "idle"]
          /\ UNCHANGED <<jobs, run, used, gone>>
  /\ Advance
TNext == TSetup \/ TStart \/ TEmpty \/ TStage \/ TEnd
TSpec == TInit /\ [][TNext]_<<pvars, gone, none, t, l>>
===============================================================================
