------------------------------- MODULE CalibMC -------------------------------
EXTENDS Calib
VARIABLES stops, h0
mvars == <<cvars, stops, h0>>
MCInit == /\ \E n \in 1..2 : \E f \in BOOLEAN : Setup(Plan(n, f))
          /\ stops = 0 /\ h0 = {}
MCNext == \/ Start /\ h0' = have /\ UNCHANGED stops
          \/ (Skip \/ Execute \/ Write \/ Finish) /\ UNCHANGED <<stops, h0>>
          \/ stops < 2 /\ Stop /\ stops' = stops + 1 /\ UNCHANGED h0
MCSpec == MCInit /\ [][MCNext]_mvars /\ WF_mvars(Start /\ have # AllOuts(plan) /\ h0' = have /\ UNCHANGED stops)
          /\ WF_mvars((Skip \/ Execute \/ Write \/ Finish) /\ UNCHANGED <<stops, h0>>)
(* a run executes only what was owed when it started; a finished run executed exactly that *)
OnlyOwed == began \subseteq Owed(plan, h0)
ExactlyOwed == at = Len(plan) + 1 => began = Owed(plan, h0)
WellFormedAtStart == have = {} => WellFormed
Complete == at = Len(plan) + 1 => have = AllOuts(plan)
Kept == [][have \subseteq have']_mvars
Ends == <>(have = AllOuts(plan))
==============================================================================
