------------------------------ MODULE TraceKit ------------------------------
(* Common part of every trace specification: the recorded executions of the *)
(* implementation (a JSON array of [id, steps]) and total, named verdicts.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Traces == JsonDeserialize(IOEnv.VP_TRACES)

VARIABLES t,    \* which trace
          l     \* number of consumed steps

Steps == Traces[t].steps
Ev == Steps[l + 1]
More == l < Len(Steps)

(* A named clause of the verdict: always TRUE for TLC, so that the rest of *)
(* the trace is still judged; a failure is printed and decides the check.  *)
Clause(name, ok) == IF ok THEN TRUE ELSE PrintT("VP-FAIL|" \o Traces[t].id \o "|" \o ToString(l + 1) \o "|" \o name)

KitInit == t \in 1..Len(Traces) /\ l = 0
Advance == /\ l' = l + 1
           /\ t' = t
           /\ (l + 1 = Len(Steps)) => PrintT("VP-DONE|" \o Traces[t].id)
IsEvent(e) == More /\ Ev.op = e

Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
(* No value occurs twice *)
Distinct(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
=============================================================================
