--------------------------- MODULE LocalConsolTrace ---------------------------
EXTENDS TraceKit, LocalConsol
TInit == KitInit
Want == Kept([i \in 1..Len(Ev.files) |-> Ev.files[i].rows], Ev.minlam, Ev.maxmask)
TConsol ==
  /\ IsEvent("consol")
  /\ LET w == Want
         f == Ev.final
         wg == {w[i].gid : i \in 1..Len(w)}
         rec(g) == w[CHOOSE i \in 1..Len(w) : w[i].gid = g]
         rg == [i \in 1..Len(f.rows) |-> f.rows[i].gid]
     IN /\ Clause("run failed", Ev.res = "ok")
        /\ Clause("consolidated files missing", f.present)
        /\ Clause("wrong set of clusters", f.present => ToSet(rg) = wg)
        /\ Clause("cluster repeated", Distinct(rg))
        /\ Clause("values changed", f.same)
        /\ Clause("ids are not 1..N in output order", \A i \in 1..Len(f.rows) : f.rows[i].id = i)
        /\ Clause("not sorted by decreasing likelihood",
                  ToSet(rg) \subseteq wg => Ranked([i \in 1..Len(rg) |-> rec(rg[i])]))
        /\ Clause("wrong members", f.present => ToSet([i \in 1..Len(f.members) |-> f.members[i].gid]) = UNION {ToSet(w[i].mem) : i \in 1..Len(w)})
        /\ Clause("member repeated", Distinct([i \in 1..Len(f.members) |-> f.members[i].gid]))
        /\ Clause("member does not carry its cluster's id",
                  \A i \in 1..Len(f.members), j \in 1..Len(f.rows) :
                     (rg[j] \in wg /\ f.members[i].gid \in ToSet(rec(rg[j]).mem)) => f.members[i].id = f.rows[j].id)
        /\ Ev.like => /\ Clause("likelihood file missing", Ev.lk.present)
                      /\ Clause("likelihood file has the wrong clusters", ToSet(Ev.lk.gids) = wg /\ Distinct(Ev.lk.gids) /\ Ev.lk.same)
  /\ Advance
TSpec == TInit /\ [][TConsol]_<<t, l>>
===============================================================================
