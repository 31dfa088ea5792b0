--------------------------- MODULE ConsolidateTrace ---------------------------
(* Judges recorded consolidations of the implementation.                      *)
EXTENDS TraceKit, Consolidate

S1 == Traces[t].steps[1]
TInit == /\ KitInit
         /\ Setup([cuts |-> S1.cuts, nvl |-> S1.nvl, scale |-> S1.scale, minlam |-> S1.minlam, maxmask |-> S1.maxmask])

TSetup == IsEvent("setup") /\ Advance /\ UNCHANGED vars
TFile == IsEvent("file") /\ ReadFile(Ev.rows) /\ Advance

Obs(o) == o.rows
RowGids(o) == [i \in 1..Len(o.rows) |-> o.rows[i].gid]
ById(o, g) == {o.rows[i].id : i \in {k \in 1..Len(o.rows) : o.rows[k].gid = g}}
MemGids(c) == ToSet(c.mem)

Judge(o) ==
  LET p == <<o.cut, o.vl>>
      want == out[p]
      wantg == GidSet(want)
  IN IF want = <<>>
     THEN Clause("a cut nothing passes must not produce rows", o.present => (o.rows = <<>> /\ o.members = <<>>))
     ELSE /\ Clause("consolidated file missing", o.present)
          /\ Clause("wrong set of clusters", o.present => ToSet(RowGids(o)) = wantg)
          /\ Clause("cluster repeated", Distinct(RowGids(o)))
          /\ Clause("cluster or member values changed", o.same)
          /\ Clause("id is not the likelihood rank",
                    \A i \in 1..Len(o.rows) : \A k \in 1..Len(want) :
                       want[k].gid = o.rows[i].gid => IdAllowed(want[k], o.rows[i].id))
          /\ Clause("ids not unique", Distinct([i \in 1..Len(o.rows) |-> o.rows[i].id]))
          /\ Clause("wrong members",
                    o.present => ToSet([i \in 1..Len(o.members) |-> o.members[i].gid]) = UNION {MemGids(want[k]) : k \in 1..Len(want)})
          /\ Clause("member repeated", Distinct([i \in 1..Len(o.members) |-> o.members[i].gid]))
          /\ Clause("member does not carry its cluster's id",
                    \A i \in 1..Len(o.members) : \A k \in 1..Len(want) :
                       o.members[i].gid \in MemGids(want[k]) => ById(o, want[k].gid) = {o.members[i].id})

JudgeSpec(o) ==
  LET want == out[<<o.cut, o.vl>>]
  IN /\ Clause("cluster does not have its own spectroscopic redshift",
               \A i \in 1..Len(o.rows) : \A k \in 1..Len(want) :
                  want[k].gid = o.rows[i].gid => o.rows[i].spec = IF S1.spec THEN SpecOf(want[k].specs) ELSE -2000)
     /\ Clause("member does not have its own spectroscopic redshift",
               \A i \in 1..Len(o.members) : \A k \in 1..Len(want) :
                  IF S1.spec
                  THEN \A q \in 1..Len(want[k].mspecs) :
                         want[k].mspecs[q].gid = o.members[i].gid => o.members[i].spec = SpecOf(want[k].mspecs[q].specs)
                  ELSE o.members[i].spec = -2000)

IdsIn(os) == UNION {{<<os[i].rows[k].gid, os[i].rows[k].id>> : k \in 1..Len(os[i].rows)} : i \in 1..Len(os)}

TFinal == /\ IsEvent("final")
          /\ Finish
          /\ Clause("consolidation failed", Ev.res = "ok")
          /\ \A i \in 1..Len(Ev.out) : Judge(Ev.out[i]) /\ JudgeSpec(Ev.out[i])
          /\ Clause("a cluster has different ids in different files",
                    LET s == IdsIn(Ev.out) IN \A a, b \in s : (a[1] = b[1]) <=> (a[2] = b[2]))
          /\ Advance

TNext == TSetup \/ TFile \/ TFinal
TSpec == TInit /\ [][TNext]_<<vars, t, l>>
===============================================================================
