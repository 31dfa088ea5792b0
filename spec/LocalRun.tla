------------------------------- MODULE LocalRun -------------------------------
(* The local run (C12): for each pixel the stages 1 first pass, 2 likelihood, *)
(* 3 percolation run in that order, each writing one file that the next one   *)
(* reads; a stage whose file exists is skipped when checking is on.  A run    *)
(* may be interrupted; a later run continues from the files.  At the end the  *)
(* percolated catalogues are consolidated.                                    *)
(* file[p][s] is 0 (absent) or the number of the run that computed it.        *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES pix,      \* the pixels
          empty,    \* [pix -> stage at which the pixel yields nothing, 9 never]
          first,    \* first stage of this kind of run (1, or 3 for percolation only)
          file,     \* [pix -> [1..3 -> Nat]]
          pend,     \* [pix -> stage computed but not yet written, 0 none]
          ran,      \* [pix -> number of the last stage started in this run]
          run,      \* number of this run
          check,    \* skip existing files?
          active,   \* a run is in progress
          final     \* [pix -> run number of the consolidated content], <<>> if absent

lvars == <<pix, empty, first, file, pend, ran, run, check, active, final>>

Setup(P, em, f) ==
  /\ pix = P /\ empty = em /\ first = f
  /\ file = [p \in P |-> [s \in 1..3 |-> 0]]
  /\ pend = [p \in P |-> 0] /\ ran = [p \in P |-> 0]
  /\ run = 0 /\ check = TRUE /\ active = FALSE /\ final = <<>>

Start(c) == /\ ~active /\ active' = TRUE /\ run' = run + 1 /\ check' = c
            /\ ran' = [p \in pix |-> 0] /\ pend' = [p \in pix |-> 0]
            /\ UNCHANGED <<pix, empty, first, file, final>>

Skip(p, s) == check /\ file[p][s] # 0
(* file contents once the pending output, if any, is written *)
Written(p) == IF pend[p] = 0 \/ pend[p] >= empty[p] THEN file[p] ELSE [file[p] EXCEPT ![pend[p]] = run]
(* Stage s of pixel p may be started now: everything before it is done for   *)
(* this run (its input file was written by this run or skipped as existing). *)
Ready(p, s) == /\ s >= first
               /\ ran[p] < s
               /\ ~Skip(p, s)
               /\ \A q \in first..(s - 1) :
                    /\ Written(p)[q] # 0
                    /\ (ran[p] # q => (ran[p] > q \/ (check /\ file[p][q] # 0)))
                    /\ (~check => Written(p)[q] = run)
Begin(p, s) == /\ active /\ Ready(p, s)
               /\ file' = [file EXCEPT ![p] = Written(p)]
               /\ pend' = [pend EXCEPT ![p] = s]
               /\ ran' = [ran EXCEPT ![p] = s]
               /\ UNCHANGED <<pix, empty, first, run, check, active, final>>

Flush(p) == /\ active /\ pend[p] # 0
            /\ file' = [file EXCEPT ![p] = Written(p)]
            /\ pend' = [pend EXCEPT ![p] = 0]
            /\ UNCHANGED <<pix, empty, first, ran, run, check, active, final>>

(* nothing more to do for p *)
Finished(p) == LET f == Written(p) IN
   \/ \A s \in first..3 : f[s] # 0 /\ (~check => f[s] = run)
   \/ \E s \in first..3 : ran[p] = s /\ s >= empty[p]
Done == \A p \in pix : Finished(p)

(* the pixels whose percolated catalogue enters the consolidation *)
Yields(p) == empty[p] > 3
Finish == /\ active /\ Done
          /\ file' = [p \in pix |-> Written(p)]
          /\ pend' = [p \in pix |-> 0]
          /\ active' = FALSE
          /\ final' = IF check /\ final # <<>> THEN final
                      ELSE [p \in {q \in pix : Yields(q)} |-> Written(p)[3]]
          /\ UNCHANGED <<pix, empty, first, ran, run, check>>
(* an interruption: what was computed but not written is lost or written *)
Crash(wr) == /\ active /\ active' = FALSE
             /\ file' = [p \in pix |-> IF p \in wr THEN Written(p) ELSE file[p]]
             /\ pend' = [p \in pix |-> 0]
             /\ UNCHANGED <<pix, empty, first, ran, run, check, final>>

(* properties *)
(* a file is never older than the file it was made from unless that one was  *)
(* rebuilt by an interrupted forced run                                      *)
Complete == ~active /\ final # <<>> => DOMAIN final = {p \in pix : Yields(p)}
NoOrphan == \A p \in pix : \A s \in (first + 1)..3 : file[p][s] # 0 => file[p][s - 1] # 0
EmptyHasNoFile == \A p \in pix : \A s \in first..3 : s >= empty[p] => file[p][s] = 0
===============================================================================
