------------------------------ MODULE ConfigMC ------------------------------
(* Histories of loads, copies, job settings, changes and write/reload on a small interface: r (required), d (with a default, 0), and a sequence s   *)
(* whose length must equal d. Values are shared by the process (the last load wins); the job setting belongs to each configuration object.          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxObj, MaxOps
Keys == {"r", "d", "s", "x"}
Unset == -1
Def == [r |-> Unset, d |-> 0, s |-> 0]     \* s is represented by its length
Files == [given : SUBSET Keys, r : {1, 2}, d : {0, 1}, s : {0, 1}]
VARIABLES cur, jobs, expect, disk, ops, defaults
vars == <<cur, jobs, expect, disk, ops, defaults>>
Val(f) == [r |-> IF "r" \in f.given THEN f.r ELSE defaults.r, d |-> IF "d" \in f.given THEN f.d ELSE defaults.d, s |-> IF "s" \in f.given THEN f.s ELSE defaults.s]
Ok(f) == "x" \notin f.given /\ Val(f).r # Unset /\ Val(f).s = Val(f).d
Init == cur = Def /\ jobs = <<>> /\ expect = <<>> /\ disk = Def /\ ops = 0 /\ defaults = Def
Load(f) == /\ Len(jobs) < MaxObj /\ Ok(f)
           /\ cur' = Val(f) /\ jobs' = Append(jobs, Val(f).r) /\ expect' = Append(expect, f.r) /\ UNCHANGED <<disk, defaults>>
Copy(i) == Len(jobs) < MaxObj /\ jobs' = Append(jobs, jobs[i]) /\ expect' = Append(expect, expect[i]) /\ UNCHANGED <<cur, disk, defaults>>
SetJob(i, v) == jobs' = [jobs EXCEPT ![i] = v] /\ expect' = [expect EXCEPT ![i] = v] /\ UNCHANGED <<cur, disk, defaults>>
Change(v) == jobs # <<>> /\ cur' = [cur EXCEPT !.d = v, !.s = v] /\ UNCHANGED <<jobs, expect, disk, defaults>>
Write == jobs # <<>> /\ disk' = cur /\ UNCHANGED <<cur, jobs, expect, defaults>>
Reload == disk.r # Unset /\ Len(jobs) < MaxObj /\ cur' = disk /\ jobs' = Append(jobs, disk.r) /\ expect' = Append(expect, disk.r) /\ UNCHANGED <<disk, defaults>>
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E f \in Files : Load(f)
           \/ \E i \in 1..Len(jobs) : Copy(i) \/ \E v \in {1, 2} : SetJob(i, v)
           \/ \E v \in {0, 1} : Change(v)
           \/ Write \/ Reload
Spec == Init /\ [][Next]_vars
Separate == jobs = expect
DefaultsKept == defaults = Def
Consistent == jobs # <<>> => cur.s = cur.d /\ cur.r # Unset
=============================================================================
