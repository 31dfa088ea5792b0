--------------------------------- MODULE Lock ---------------------------------
(* A lock file (C06): contenders ask, are granted or refused, release, crash. *)
EXTENDS Integers, FiniteSets
VARIABLES W,        \* contenders
          owner,    \* 0 or the contender whose lock file exists
          pc,       \* [W -> "idle" | "ask" | "got" | "hold" | "dead"]
          blk,      \* [W -> [block, maxtry]]
          tries,    \* [W -> failed tries of this request that were seen]
          naps,     \* [W -> waits of this request]
          held      \* [W -> somebody else held the lock during this request]
kvars == <<W, owner, pc, blk, tries, naps, held>>

(* o: 0, or somebody outside S whose lock is there *)
LInit(S, o) == /\ W = S /\ owner = o /\ pc = [w \in S |-> "idle"]
            /\ blk = [w \in S |-> [block |-> FALSE, maxtry |-> 1]]
            /\ tries = [w \in S |-> 0] /\ naps = [w \in S |-> 0] /\ held = [w \in S |-> FALSE]

(* during a request the contender learns that somebody else has the lock *)
Mark(o) == [w \in W |-> held[w] \/ (pc[w] = "ask" /\ o # 0 /\ o # w)]

Ask(w, b, m) == /\ pc[w] \in {"idle"}
                /\ pc' = [pc EXCEPT ![w] = "ask"]
                /\ blk' = [blk EXCEPT ![w] = [block |-> b, maxtry |-> m]]
                /\ tries' = [tries EXCEPT ![w] = 0] /\ naps' = [naps EXCEPT ![w] = 0]
                /\ held' = [Mark(owner) EXCEPT ![w] = owner # 0]
                /\ UNCHANGED <<W, owner>>
Acquire(w) == /\ pc[w] = "ask" /\ owner = 0
              /\ owner' = w /\ pc' = [pc EXCEPT ![w] = "got"]
              /\ held' = [v \in W |-> held[v] \/ (pc[v] = "ask" /\ v # w)]
              /\ UNCHANGED <<W, blk, tries, naps>>
(* a try that was seen to fail, fails because somebody else has the lock at that moment *)
Fail(w) == /\ pc[w] = "ask" /\ owner \notin {0, w}
           /\ tries' = [tries EXCEPT ![w] = @ + 1]
           /\ UNCHANGED <<W, owner, pc, blk, naps, held>>
(* only a blocking request waits *)
Nap(w) == /\ pc[w] = "ask" /\ held[w] /\ blk[w].block
          /\ naps' = [naps EXCEPT ![w] = @ + 1]
          /\ held' = [held EXCEPT ![w] = owner # 0]
          /\ UNCHANGED <<W, owner, pc, blk, tries>>
Grant(w) == /\ pc[w] = "got" /\ pc' = [pc EXCEPT ![w] = "hold"] /\ UNCHANGED <<W, owner, blk, tries, naps, held>>
            /\ blk[w].block => tries[w] < blk[w].maxtry /\ naps[w] < blk[w].maxtry
MayRefuse(w) == /\ pc[w] = "ask"
                /\ LET m == blk[w].maxtry
                   IN IF ~blk[w].block THEN held[w] /\ tries[w] <= 1
                      ELSE IF tries[w] > 0 THEN tries[w] = m
                      ELSE naps[w] = m \/ (naps[w] = m - 1 /\ held[w])
Refuse(w) == /\ MayRefuse(w)
             /\ pc' = [pc EXCEPT ![w] = "idle"] /\ UNCHANGED <<W, owner, blk, tries, naps, held>>
Release(w) == /\ pc[w] = "hold" /\ owner = w
              /\ owner' = 0 /\ pc' = [pc EXCEPT ![w] = "idle"] /\ UNCHANGED <<W, blk, tries, naps, held>>
(* a dead owner keeps the lock for ever *)
Die(w) == /\ pc[w] # "dead" /\ pc' = [pc EXCEPT ![w] = "dead"] /\ UNCHANGED <<W, owner, blk, tries, naps, held>>

Mutex == Cardinality({w \in W : pc[w] \in {"got", "hold"}}) <= 1
OwnerHolds == \A w \in W : pc[w] \in {"got", "hold"} => owner = w
===============================================================================
