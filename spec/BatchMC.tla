------------------------------ MODULE BatchMC ------------------------------
(* Histories of submissions, removals of job files by the user and executions: no earlier job file is ever replaced, and executing every *)
(* element of a submitted array computes every pixel of the survey exactly once.                                                          *)
EXTENDS Batch, TLC
CONSTANTS NPix, MaxSub
VARIABLES table, files, subs, ran
vars == <<table, files, subs, ran>>
Free(f) == CHOOSE i \in 1..(MaxSub + 1) : i \notin DOMAIN f /\ \A j \in 1..(i - 1) : j \in DOMAIN f
SetToSeq(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : s[i] = s[j] => i = j
Init == table \in (SUBSET (0..NPix - 1)) \ {{}} /\ files = << >> /\ subs = 0 /\ ran = << >>
Submit(mode, k) ==
  /\ subs < MaxSub
  /\ LET px == SetToSeq(RunPixels(table, k))
         i == Free(files)
     IN files' = [j \in DOMAIN files \cup {i} |-> IF j = i THEN [sub |-> subs + 1, k |-> k, cmds |-> [n \in 1..Len(px) |-> [task |-> TaskOf(mode), pixel |-> px[n]]]] ELSE files[j]]
  /\ subs' = subs + 1
  /\ UNCHANGED <<table, ran>>
Remove(i) == i \in DOMAIN files /\ files' = [j \in DOMAIN files \ {i} |-> files[j]] /\ UNCHANGED <<table, subs, ran>>
Run(i) == /\ i \in DOMAIN files /\ Len(ran) = 0
          /\ ran' = files[i].cmds /\ UNCHANGED <<table, files, subs>>
Next == (\E m \in {0, 1, 4}, k \in 0..1 : Submit(m, k)) \/ (\E i \in DOMAIN files : Remove(i) \/ Run(i))
Spec == Init /\ [][Next]_vars
Covered == \A i \in DOMAIN files : Covers(files[i].cmds, RunPixels(table, files[i].k))
EachSubmissionKept == Cardinality({files[i].sub : i \in DOMAIN files}) = Cardinality(DOMAIN files)
NeverReplaced == [][\A i \in DOMAIN files : i \in DOMAIN files' => files'[i] = files[i]]_vars
(* every galaxy (table pixel) is computed by exactly one of the commands of a submission *)
EveryGalaxyOnce == \A i \in DOMAIN files : \A p \in table : Cardinality({n \in 1..Len(files[i].cmds) : files[i].cmds[n].pixel = Up(p, files[i].k)}) = 1
=============================================================================
