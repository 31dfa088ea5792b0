------------------------------- MODULE PixelJob -------------------------------
(* Production pixel jobs (C15).  A job (kind, pixel) has a chain of stages:   *)
(* three for the cluster finder, one for the others.  Starting a job looks at *)
(* each stage's file in order: if present the stage is skipped, otherwise the *)
(* stage is computed from the previous stage's file (the configured input for *)
(* the first), the members, if any, are written, and then the catalogue.  A   *)
(* crash between two file writes ends the job; a rerun continues from the     *)
(* files.  file[j][s] = 0 (absent) or the number of the run that computed it; *)
(* mem[j] likewise for the member file of the last stage.                     *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES jobs,    \* [job -> [n |-> number of stages, mem |-> has members]]
          file,    \* [job -> [stage -> Nat]]
          mem,     \* [job -> Nat]
          at,      \* [job -> stage being looked at; 0 not running]
          pc,      \* [job -> "look" | "calc" | "mem" | "idle"]
          run,     \* [job -> run number]
          used     \* [job -> [stage -> stages computed in this run]]
pvars == <<jobs, file, mem, at, pc, run, used>>

Setup(J, f, m) == /\ jobs = J /\ file = f /\ mem = m
                  /\ at = [j \in DOMAIN J |-> 0] /\ pc = [j \in DOMAIN J |-> "idle"]
                  /\ run = [j \in DOMAIN J |-> 0] /\ used = [j \in DOMAIN J |-> {}]

Start(j) == /\ pc[j] = "idle"
            /\ pc' = [pc EXCEPT ![j] = "look"] /\ at' = [at EXCEPT ![j] = 1]
            /\ run' = [run EXCEPT ![j] = @ + 1] /\ used' = [used EXCEPT ![j] = {}]
            /\ UNCHANGED <<jobs, file, mem>>
(* the job ends by looking past its last stage *)
Ends(j, s) == s = jobs[j].n
Skip(j) == /\ pc[j] = "look" /\ file[j][at[j]] # 0
           /\ IF Ends(j, at[j]) THEN at' = [at EXCEPT ![j] = 0] /\ pc' = [pc EXCEPT ![j] = "idle"]
              ELSE at' = [at EXCEPT ![j] = @ + 1] /\ UNCHANGED pc
           /\ UNCHANGED <<jobs, file, mem, run, used>>
Compute(j) == /\ pc[j] = "look" /\ file[j][at[j]] = 0
              /\ pc' = [pc EXCEPT ![j] = "calc"]
              /\ used' = [used EXCEPT ![j] = @ \cup {at[j]}]
              /\ UNCHANGED <<jobs, file, mem, at, run>>
WriteMem(j) == /\ pc[j] = "calc" /\ Ends(j, at[j]) /\ jobs[j].mem
               /\ mem' = [mem EXCEPT ![j] = run[j]]
               /\ pc' = [pc EXCEPT ![j] = "mem"]
               /\ UNCHANGED <<jobs, file, at, run, used>>
WriteCat(j) == /\ IF Ends(j, at[j]) /\ jobs[j].mem THEN pc[j] = "mem" ELSE pc[j] = "calc"
               /\ file' = [file EXCEPT ![j][at[j]] = run[j]]
               /\ IF Ends(j, at[j]) THEN at' = [at EXCEPT ![j] = 0] /\ pc' = [pc EXCEPT ![j] = "idle"]
                  ELSE at' = [at EXCEPT ![j] = @ + 1] /\ pc' = [pc EXCEPT ![j] = "look"]
               /\ UNCHANGED <<jobs, mem, run, used>>
(* a stage that finds nothing has no output, and the job ends: there is nothing for the stages after it *)
Empty(j) == /\ pc[j] = "calc"
            /\ pc' = [pc EXCEPT ![j] = "idle"] /\ at' = [at EXCEPT ![j] = 0]
            /\ UNCHANGED <<jobs, file, mem, run, used>>
Crash(j) == /\ pc[j] # "idle" /\ pc' = [pc EXCEPT ![j] = "idle"] /\ at' = [at EXCEPT ![j] = 0]
            /\ UNCHANGED <<jobs, file, mem, run, used>>

Complete(j) == \A s \in 1..jobs[j].n : file[j][s] # 0
(* what a run started now must compute, given the files at its start *)
Missing(f) == {s \in DOMAIN f : f[s] = 0}

MembersFirst == \A j \in DOMAIN jobs : jobs[j].mem /\ file[j][jobs[j].n] # 0 => mem[j] # 0
SameRun == \A j \in DOMAIN jobs : jobs[j].mem /\ file[j][jobs[j].n] # 0 => mem[j] = file[j][jobs[j].n]
===============================================================================
