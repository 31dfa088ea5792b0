-------------------------------- MODULE LockMC --------------------------------
(* The protocol of the implementation (link a private file to the lock name,  *)
(* which fails if the name exists; release by unlinking) refines Lock, for    *)
(* three contenders, all interleavings and crashes.                           *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Block, MaxTry, Rounds
P == 1..3
VARIABLES file,      \* 0: lock name free, else the contender whose file it is
          tmp,       \* [P -> private file exists]
          at, ctr, round
vars == <<file, tmp, at, ctr, round>>
Init == file = 0 /\ tmp = [p \in P |-> FALSE] /\ at = [p \in P |-> "idle"] /\ ctr = [p \in P |-> 0] /\ round = [p \in P |-> 0]
Req(p) == at[p] = "idle" /\ round[p] < Rounds /\ tmp' = [tmp EXCEPT ![p] = TRUE] /\ at' = [at EXCEPT ![p] = "link"]
          /\ ctr' = [ctr EXCEPT ![p] = 0] /\ round' = [round EXCEPT ![p] = @ + 1] /\ UNCHANGED file
LinkOk(p) == at[p] = "link" /\ file = 0 /\ file' = p /\ at' = [at EXCEPT ![p] = "drop"] /\ UNCHANGED <<tmp, ctr, round>>
LinkFail(p) == at[p] = "link" /\ file # 0 /\ ctr' = [ctr EXCEPT ![p] = @ + 1]
               /\ at' = [at EXCEPT ![p] = IF p \in Block /\ ctr[p] + 1 < MaxTry THEN "link" ELSE "give"]
               /\ UNCHANGED <<file, tmp, round>>
Drop(p) == at[p] = "drop" /\ tmp' = [tmp EXCEPT ![p] = FALSE] /\ at' = [at EXCEPT ![p] = "hold"] /\ UNCHANGED <<file, ctr, round>>
Give(p) == at[p] = "give" /\ tmp' = [tmp EXCEPT ![p] = FALSE] /\ at' = [at EXCEPT ![p] = "idle"] /\ UNCHANGED <<file, ctr, round>>
Rel(p) == at[p] = "hold" /\ file' = 0 /\ at' = [at EXCEPT ![p] = "idle"] /\ UNCHANGED <<tmp, ctr, round>>
Crash(p) == at[p] # "dead" /\ at' = [at EXCEPT ![p] = "dead"] /\ UNCHANGED <<file, tmp, ctr, round>>
Next == \E p \in P : Req(p) \/ LinkOk(p) \/ LinkFail(p) \/ Drop(p) \/ Give(p) \/ Rel(p) \/ Crash(p)
Spec == Init /\ [][Next]_vars
Mutex == Cardinality({p \in P : at[p] \in {"drop", "hold"}}) <= 1
Owned == \A p \in P : at[p] \in {"drop", "hold"} => file = p
NoLitter == \A p \in P : at[p] \in {"idle", "hold"} => ~tmp[p]
(* only the owner removes the lock *)
Safe == [][file # 0 => (file' = file \/ (file' = 0 /\ at[file] = "hold"))]_vars
===============================================================================
