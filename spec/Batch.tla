------------------------------- MODULE Batch -------------------------------
(* Submitting a survey to a batch system: which job files exist and which commands they hold. *)
EXTENDS Integers, Sequences, FiniteSets
TaskOf(mode) == <<"RunRedmapperPixelTask", "RunZredPixelTask", "RuncatPixelTask", "RunZmaskPixelTask", "RunZScanPixelTask">>[mode + 1]
(* Every pixel of the survey has exactly one command *)
Covers(got, want) ==
  /\ {got[i].pixel : i \in 1..Len(got)} = want
  /\ Cardinality({got[i].pixel : i \in 1..Len(got)}) = Len(got)
(* Run pixels of a survey: nested ancestors of the table's pixels (k levels up) *)
RECURSIVE Up(_, _)
Up(p, k) == IF k = 0 THEN p ELSE Up(p \div 4, k - 1)
RunPixels(table, k) == {Up(p, k) : p \in table}
=============================================================================
