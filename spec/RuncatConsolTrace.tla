--------------------------- MODULE RuncatConsolTrace ---------------------------
EXTENDS TraceKit, RuncatConsol
S1 == Traces[t].steps[1]
SpecOf(specs) == LET ok == SelectSeq(specs, LAMBDA s : s[3] /\ s[1] < 3000)
                 IN IF ok = <<>> THEN -1000 ELSE ok[1][2]
TInit == KitInit /\ RInit
TSetup == IsEvent("setup") /\ Advance /\ UNCHANGED rvars
TFile == IsEvent("file") /\ ReadFile(Ev.rows) /\ Advance
TFinal ==
  /\ IsEvent("final") /\ Finish
  /\ Clause("consolidation failed", Ev.res = "ok")
  /\ IF rows = <<>> THEN Clause("rows from nowhere", Ev.rows = <<>>)
     ELSE /\ Clause("wrong set of clusters", Ev.res = "ok" => {Ev.rows[i].gid : i \in 1..Len(Ev.rows)} = Gids(rows))
          /\ Clause("cluster repeated", Distinct([i \in 1..Len(Ev.rows) |-> Ev.rows[i].gid]))
          /\ Clause("cluster or member values changed", Ev.same)
          /\ Clause("wrong members", S1.members /\ Ev.res = "ok" =>
                       {<<Ev.members[i].id, Ev.members[i].gid>> : i \in 1..Len(Ev.members)} = MembersOf(rows))
          /\ Clause("member repeated", Distinct([i \in 1..Len(Ev.members) |-> Ev.members[i].gid]))
          /\ Clause("members consolidated though not asked for", ~S1.members => Ev.members = <<>>)
          /\ Clause("cluster does not have its own spectroscopic redshift",
               \A i \in 1..Len(Ev.rows) : \A k \in 1..Len(rows) :
                  rows[k].gid = Ev.rows[i].gid => Ev.rows[i].spec = IF S1.spec THEN SpecOf(rows[k].specs) ELSE -2000)
          /\ Clause("member does not have its own spectroscopic redshift",
               \A i \in 1..Len(Ev.members) : \A k \in 1..Len(rows) :
                  IF S1.spec
                  THEN \A q \in 1..Len(rows[k].mspecs) :
                         rows[k].mspecs[q].gid = Ev.members[i].gid => Ev.members[i].spec = SpecOf(rows[k].mspecs[q].specs)
                  ELSE Ev.members[i].spec = -2000)
  /\ Advance
TNext == TSetup \/ TFile \/ TFinal
TSpec == TInit /\ [][TNext]_<<rvars, t, l>>
===============================================================================
