------------------------------ MODULE IngestPar ------------------------------
(* Concurrent ingest (C02) as seen from outside.  A batch is a set of rows     *)
(* [gid, pix, id]; it is todo, active, done, failed or lost (its worker died). *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES rows,      \* [batch -> set of rows]
          st,        \* [batch -> status]
          own,       \* [batch -> worker]
          dead,      \* workers that died
          fin        \* [worker -> "no" | "ok" | "failed"]
pvars == <<rows, st, own, dead, fin>>
Batches == DOMAIN rows
Start(b) == st[b] = "todo" /\ own[b] \notin dead /\ st' = [st EXCEPT ![b] = "active"] /\ UNCHANGED <<rows, own, dead, fin>>
Done(b) == st[b] = "active" /\ st' = [st EXCEPT ![b] = "done"] /\ UNCHANGED <<rows, own, dead, fin>>
Failed(b) == st[b] = "active" /\ dead # {} /\ st' = [st EXCEPT ![b] = "failed"] /\ UNCHANGED <<rows, own, dead, fin>>
Die(w) == /\ w \notin dead /\ dead' = dead \cup {w}
          /\ st' = [b \in Batches |-> IF own[b] = w /\ st[b] = "active" THEN "lost" ELSE st[b]]
          /\ UNCHANGED <<rows, own, fin>>
Fin(w, ok) == fin' = [fin EXCEPT ![w] = IF ok THEN "ok" ELSE "failed"] /\ UNCHANGED <<rows, st, own, dead>>

Of(S) == UNION {rows[b] : b \in {x \in Batches : st[x] \in S}}
At(S, p) == {r \in Of(S) : r.pix = p}
Gids(S) == {r.gid : r \in S}
(* What may be in the file of pixel p: all rows of batches that were          *)
(* acknowledged, and for each interrupted batch all or none of its rows there *)
Explains(p, gids) ==
  /\ Gids(At({"done"}, p)) \subseteq gids
  /\ gids \subseteq Gids(At({"done", "failed", "lost"}, p))
  /\ \A b \in Batches : st[b] \in {"failed", "lost"} =>
       LET g == {r.gid : r \in {x \in rows[b] : x.pix = p}} IN g \subseteq gids \/ g \cap gids = {}
AllPix == {r.pix : r \in UNION {rows[b] : b \in Batches}}
===============================================================================
