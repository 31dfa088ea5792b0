-------------------------------- MODULE RedmagicMC -------------------------------
(* The run over the pixels of a table: one file per mode, started by the first pixel *)
(* and appended to by the others, refused when it exists unless asked to replace it. *)
(* A run may stop between any two steps.                                             *)
EXTENDS Redmagic, TLC
CONSTANTS MaxRuns
Mode1 == [lo |-> 1, hi |-> 5, maxchi |-> 300, eta |-> 200, cush |-> 50, runab |-> TRUE, applyab |-> FALSE]
Mode2 == [lo |-> 0, hi |-> 9, maxchi |-> 300, eta |-> 120, cush |-> 50, runab |-> FALSE, applyab |-> FALSE]
P == <<Mode1, Mode2>>
Gal == [z : {1, 3, 5}, chi : {150, 310}, cm : {50, 200}, b : {-1, 1}, l0 : {90, 210}, l1 : {150, 210}, zmax : {-1, 4}]
VARIABLES table, files, pix, mode, phase, runs, clobber
vars == <<table, files, pix, mode, phase, runs, clobber>>
None == <<"none">>
Base == [z |-> 3, chi |-> 150, cm |-> 200, b |-> 1, l0 |-> 210, l1 |-> 210, zmax |-> 4]
(* two pixels: one holds one galaxy of any kind, the other a red galaxy or nothing selectable *)
Tables == {<< <<[g EXCEPT !.z = @] >>, <<[Base EXCEPT !.zmax = y]>> >> : g \in Gal, y \in {-1, 4}}
Init == /\ table \in Tables
        /\ files = [m \in 1..2 |-> None] /\ pix = 1 /\ mode = 1 /\ phase = "idle" /\ runs = 0 /\ clobber = FALSE
Sel(k, m) == SelectSeq(table[k], LAMBDA g : Selected(g, P[m]))
Start == /\ phase = "idle" /\ runs < MaxRuns /\ runs' = runs + 1
         /\ \E c \in BOOLEAN : /\ clobber' = c
                               /\ phase' = IF ~c /\ \E m \in 1..2 : files[m] # None THEN "refused" ELSE "run"
         /\ pix' = 1 /\ mode' = 1 /\ UNCHANGED <<table, files>>
Step == /\ phase = "run"
        /\ files' = [files EXCEPT ![mode] = IF pix = 1 THEN <<"file">> \o Sel(1, mode) ELSE @ \o Sel(pix, mode)]
        /\ IF mode < 2 THEN mode' = mode + 1 /\ UNCHANGED <<pix, phase>>
           ELSE IF pix < Len(table) THEN mode' = 1 /\ pix' = pix + 1 /\ UNCHANGED phase
           ELSE phase' = "done" /\ UNCHANGED <<mode, pix>>
        /\ UNCHANGED <<table, runs, clobber>>
Stop == phase = "run" /\ phase' = "idle" /\ UNCHANGED <<table, files, pix, mode, runs, clobber>>
Again == phase \in {"done", "refused"} /\ phase' = "idle" /\ UNCHANGED <<table, files, pix, mode, runs, clobber>>
Next == Start \/ Step \/ Stop \/ Again
Spec == Init /\ [][Next]_vars
Whole(m) == SelectSeq(table[1] \o table[2], LAMBDA g : Selected(g, P[m]))
(* after a complete run every file holds the selection of the whole catalogue, once *)
Complete == phase = "done" => \A m \in 1..2 : files[m] = <<"file">> \o Whole(m)
(* nothing outside the cuts is ever in a file *)
Sound == \A m \in 1..2 : files[m] # None => \A k \in 2..Len(files[m]) : Selected(files[m][k], P[m])
(* the cuts imply each other as they should *)
Cuts == \A g \in Gal : \A m \in 1..2 : Selected(g, P[m]) =>
           /\ g.z > P[m].lo /\ g.z < P[m].hi /\ g.chi < P[m].maxchi /\ g.chi < g.cm /\ g.l1 > P[m].eta /\ g.zmax > 0 /\ ZCorr(g, P[m]) < g.zmax
Refused == [][phase' = "refused" => UNCHANGED files]_vars
==================================================================================
