------------------------------- MODULE IngestMC -------------------------------
(* All histories of up to four batches drawn from five galaxies, with id      *)
(* clashes, masked galaxies, refused batches and attempts after finalising.   *)
EXTENDS Ingest, TLC
VARIABLES sent, n
Gal == {[gid |-> 1, pix |-> 0, ok |-> TRUE, id |-> 1], [gid |-> 2, pix |-> 0, ok |-> TRUE, id |-> 2],
        [gid |-> 3, pix |-> 1, ok |-> TRUE, id |-> 2], [gid |-> 4, pix |-> 1, ok |-> FALSE, id |-> 4],
        [gid |-> 5, pix |-> 2, ok |-> TRUE, id |-> 5]}
MCInit == (\E g \in BOOLEAN : Open(g)) /\ sent = {} /\ n = 0
MCNext == /\ n < 4 /\ n' = n + 1
          /\ \/ \E B \in (SUBSET (Gal \ sent)) \ {{}} : AddBatch(B) /\ sent' = sent \cup B
             \/ Refuse /\ UNCHANGED sent
             \/ Finalise /\ UNCHANGED sent
             \/ FinaliseFails /\ UNCHANGED sent
MCSpec == MCInit /\ [][MCNext]_<<ivars, sent, n>>
Exact == cat = {g \in sent : g.ok}
UniqueWhenFinished == finished => IdsUnique
===============================================================================
