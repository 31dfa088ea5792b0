-------------------------------- MODULE Ingest --------------------------------
(* The pixelised galaxy catalogue as a state machine (C01, C03).              *)
(* A galaxy is a record [gid, pix, ok, id]: its identity, the sky pixel that  *)
(* contains it, whether the footprint mask accepts it, its input id.          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cat,        \* set of galaxies in the catalogue
          gen,        \* unique ids are generated
          finished    \* the master table was published
ivars == <<cat, gen, finished>>

Open(g) == cat = {} /\ gen = g /\ finished = FALSE
AddBatch(rows) == /\ ~finished
                /\ cat' = cat \cup {r \in rows : r.ok}
                /\ UNCHANGED <<gen, finished>>
(* anything refused changes nothing *)
Refuse == UNCHANGED ivars
IdsUnique == gen \/ Cardinality({g.id : g \in cat}) = Cardinality(cat)
Finalise == ~finished /\ IdsUnique /\ finished' = TRUE /\ UNCHANGED <<cat, gen>>
FinaliseFails == ~finished /\ ~IdsUnique /\ UNCHANGED ivars

Pixels == {g.pix : g \in cat}
InPixel(p) == {g \in cat : g.pix = p}

(* Properties *)
Conservation == \A a, b \in cat : a.gid = b.gid => a = b
Accepted == \A g \in cat : g.ok
Frozen == [][finished => cat' = cat]_ivars
===============================================================================
