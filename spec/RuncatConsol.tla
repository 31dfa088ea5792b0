----------------------------- MODULE RuncatConsol -----------------------------
(* Consolidation of distributed measurement jobs (C26).  The per-pixel        *)
(* catalogues are read one after another; the clusters that lie in the pixel  *)
(* of their own file are kept, in file order, with their members.  Nothing is *)
(* renumbered.                                                                *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES rows,   \* kept clusters so far
          seen,   \* all clusters read so far
          done
rvars == <<rows, seen, done>>
Kept(f) == SelectSeq(f, LAMBDA c : c.inpix)
RInit == rows = <<>> /\ seen = <<>> /\ done = FALSE
ReadFile(f) == ~done /\ rows' = rows \o Kept(f) /\ seen' = seen \o f /\ UNCHANGED done
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<rows, seen>>
Gids(s) == {s[i].gid : i \in 1..Len(s)}
MembersOf(s) == UNION {{<<s[i].id, s[i].mem[k]>> : k \in 1..Len(s[i].mem)} : i \in 1..Len(s)}
ExactlyInPixel == /\ Gids(rows) = {g \in Gids(seen) : \E i \in 1..Len(seen) : seen[i].gid = g /\ seen[i].inpix}
                  /\ Cardinality(Gids(rows)) = Len(rows)
===============================================================================
