------------------------------ MODULE PixelJobMC ------------------------------
EXTENDS PixelJob, TLC
(* a cluster finder job and a measurement job *)
J == 1..2
JJ == [j \in J |-> IF j = 1 THEN [n |-> 3, mem |-> TRUE] ELSE [n |-> 1, mem |-> j = 2]]
(* any subset of files may exist beforehand (with members iff the last one does) *)
MCInit == \E f \in [1..3 -> {0, 9}] : \E g \in {0, 9} :
            Setup(JJ, [j \in J |-> IF j = 1 THEN f ELSE IF j = 2 THEN <<g>> ELSE <<0>>],
                  [j \in J |-> IF j = 1 THEN f[3] ELSE IF j = 2 THEN g ELSE 0])
MCNext == \E j \in J : \/ run[j] < 3 /\ Start(j)
                       \/ Skip(j) \/ Compute(j) \/ WriteMem(j) \/ WriteCat(j)
                       \/ run[j] < 3 /\ (Crash(j) \/ Empty(j))
MCSpec == MCInit /\ [][MCNext]_pvars /\ \A j \in J : WF_pvars(Skip(j) \/ Compute(j) \/ WriteMem(j) \/ WriteCat(j))
(* existing files are never recomputed, other jobs' files never touched *)
Stable == [][\A j \in J : \A s \in 1..JJ[j].n : file[j][s] # 0 => file'[j][s] = file[j][s]]_pvars
OnlyOwn == [][\A j, k \in J : pc'[j] # pc[j] /\ j # k => file'[k] = file[k] /\ mem'[k] = mem[k]]_pvars
InOrder == \A j \in J : pc[j] \in {"calc", "mem"} => \A s \in 1..(at[j] - 1) : file[j][s] # 0
Completes == \A j \in J : [](pc[j] # "idle" /\ run[j] = 3 => <>(pc[j] = "idle" /\ Complete(j)))
===============================================================================
