---------------------------- MODULE LocalRunTrace ----------------------------
(* Judges recorded local runs with interruptions and restarts.               *)
EXTENDS TraceKit, LocalRun
VARIABLE crashed, gone, hadfinal
S1 == Traces[t].steps[1]
Failed == S1.op = "failed"
PixSet == {S1.pixels[i].pix : i \in 1..Len(S1.pixels)}
Pix(p) == S1.pixels[CHOOSE i \in 1..Len(S1.pixels) : S1.pixels[i].pix = p]
TInit == /\ KitInit
         /\ crashed = FALSE /\ gone = FALSE /\ hadfinal = FALSE
         /\ IF Failed THEN Setup({}, <<>>, 1)
            ELSE Setup(PixSet, [p \in PixSet |-> Pix(p).empty], IF S1.ponly THEN 3 ELSE 1)

TFailed == IsEvent("failed") /\ Clause("the run dispatched no jobs", FALSE) /\ Advance /\ UNCHANGED <<lvars, crashed, gone, hadfinal>>
TSetup == IsEvent("setup") /\ Advance /\ UNCHANGED <<lvars, crashed, gone, hadfinal>>
TRun == IsEvent("run") /\ Start(Ev.check) /\ crashed' = Ev.crashed /\ UNCHANGED <<gone, hadfinal>> /\ Advance

TStage == /\ IsEvent("stage")
          /\ UNCHANGED <<crashed, hadfinal>>
          /\ Clause("stage called for a pixel that is not part of the run", Ev.pix \in pix)
          /\ Clause("stage was not given the file the previous stage wrote",
                    Ev.inp = (IF Ev.s = 1 THEN "seed" ELSE IF S1.ponly THEN "catfile" ELSE "prev"))
          /\ Clause("stage settings lost", Ev.keepz = S1.keepz /\ Ev.cosmo /\ (Ev.s = 1 => Ev.spec = S1.spec)
                                            /\ (Ev.s = first => Ev.clean = S1.clean))
          /\ IF Ev.pix \in pix /\ Ready(Ev.pix, Ev.s) /\ ~gone
             THEN Begin(Ev.pix, Ev.s) /\ UNCHANGED gone
             ELSE /\ Clause("stage recomputed, repeated or out of order", gone)
                  /\ gone' = TRUE /\ UNCHANGED lvars
          /\ Advance

FileOf(p) == Ev.files[CHOOSE i \in 1..Len(Ev.files) : Ev.files[i].pix = p]
Epochs(p) == [s \in 1..3 |-> FileOf(p).fs[s].e]
Observed == [p \in pix |-> Epochs(p)]

JudgeFiles ==
   \A p \in pix :
     /\ Clause("a catalogue file exists without its members",
               FileOf(p).fs[3].e # 0 => FileOf(p).mem # 0)
     /\ \A s \in first..3 : FileOf(p).fs[s].e > 0 =>
           Clause("a pixel's file does not hold that pixel's clusters", FileOf(p).fs[s].gids = Pix(p).gids)

JudgeFinal ==
   LET want == UNION {ToSet(Pix(p).gids) : p \in {q \in pix : Yields(q)}}
   IN /\ Clause("final catalogue missing", Ev.final.present /\ Ev.fmem.present)
      /\ Clause("consolidated likelihoods missing", S1.like => Ev.flike)
      /\ Clause("final catalogue differs from an uninterrupted run",
                ToSet(Ev.final.gids) = want /\ Distinct(Ev.final.gids))
      /\ Clause("final members differ from an uninterrupted run",
                ToSet(Ev.fmem.gids) = want /\ Distinct(Ev.fmem.gids))

TEnd ==
  /\ IsEvent("end")
  /\ UNCHANGED crashed /\ hadfinal' = Ev.final.present
  /\ IF gone THEN UNCHANGED <<lvars, gone>>
     ELSE IF ~crashed
     THEN /\ Clause("uninterrupted run failed", Ev.res = "ok")
          /\ Clause("final file name not returned", Ev.res = "ok" => Ev.ret)
          /\ Clause("configuration not restored", Ev.restored)
          /\ IF Ev.res = "ok" /\ Done
             THEN /\ Finish /\ UNCHANGED gone
                  /\ Clause("files on disk differ from what the run computed", Observed = file')
                  /\ JudgeFiles /\ JudgeFinal
                  /\ Clause("consolidated catalogue is stale",
                       (Ev.final.present /\ ~(check /\ final # <<>>)) =>
                         \A i \in 1..Len(Ev.final.gids) : \A p \in DOMAIN final' :
                            Ev.final.gids[i] \in ToSet(Pix(p).gids) => Ev.final.ep[i] = final'[p])
                  /\ (S1.like /\ ~check) =>
                       /\ Clause("consolidated likelihoods are not those of the run",
                            ToSet(Ev.like.gids) = UNION {ToSet(Pix(p).gids) : p \in {q \in pix : file'[q][2] # 0}} /\ Distinct(Ev.like.gids))
                       /\ Clause("consolidated likelihoods are stale",
                            \A i \in 1..Len(Ev.like.gids) : \A p \in pix :
                               Ev.like.gids[i] \in ToSet(Pix(p).gids) => Ev.like.ep[i] = file'[p][2])
             ELSE /\ Clause("a stage was not run", Ev.res # "ok")
                  /\ gone' = TRUE /\ UNCHANGED lvars
     ELSE /\ JudgeFiles
          /\ Clause("an interrupted run left a final catalogue without its members or likelihoods",
                    Ev.final.present /\ ~hadfinal => Ev.fmem.present /\ (S1.like => Ev.flike))
          /\ LET wr == {p \in pix : Epochs(p) = Written(p)}
             IN IF \A p \in pix : Epochs(p) = Written(p) \/ Epochs(p) = file[p]
                THEN /\ Crash(wr) /\ UNCHANGED gone
                ELSE /\ Clause("files changed that the interrupted run did not compute", FALSE)
                     /\ gone' = TRUE /\ UNCHANGED lvars
  /\ Advance

(* an interrupted run may have consolidated already *)
TNext == TFailed \/ TSetup \/ TRun \/ TStage \/ TEnd
TSpec == TInit /\ [][TNext]_<<lvars, crashed, gone, hadfinal, t, l>>
===============================================================================
