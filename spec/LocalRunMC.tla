------------------------------ MODULE LocalRunMC ------------------------------
EXTENDS LocalRun, TLC
P == {1, 2}
MCInit == \E em \in [P -> {1, 2, 3, 9}], f \in {1, 3} : Setup(P, em, f)
MCNext == \/ run < 3 /\ \E c \in BOOLEAN : Start(c)
          \/ \E p \in P, s \in 1..3 : Begin(p, s)
          \/ \E p \in P : Flush(p)
          \/ Finish
          \/ \E w \in SUBSET P : run < 3 /\ Crash(w)
MCSpec == MCInit /\ [][MCNext]_lvars /\ WF_lvars(Finish) /\ \A p \in P : WF_lvars(Flush(p)) /\ \A s \in 1..3 : WF_lvars(Begin(p, s))
(* a stage is computed at most once per run; skipped ones not at all *)
OncePerRun == [][\A p \in P : ran'[p] # ran[p] /\ run' = run => ran'[p] > ran[p]]_lvars
NoRecompute == [][\A p \in P, s \in 1..3 : (check /\ file[p][s] # 0 /\ active) => file'[p][s] = file[p][s]]_lvars
(* any uninterrupted run completes, however its predecessors ended *)
Completes == [](active /\ run = 3 => <>(~active /\ Done))
===============================================================================
