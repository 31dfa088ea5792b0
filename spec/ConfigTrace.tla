----------------------------- MODULE ConfigTrace -----------------------------
EXTENDS TraceKit, Config
VARIABLES jobs,    \* job settings of every configuration object
          cur,     \* values in force (of the last load)
          names    \* file names seen
Ver == Traces[t].steps[1].version
L == [given |-> Ev.given, cat |-> Ev.cat, wcen |-> Ev.wcen, outpath |-> Ev.outpath, version |-> Ver]
TInit == KitInit /\ jobs = <<>> /\ cur = <<>> /\ names = <<>>
TSetup == IsEvent("setup") /\ Advance /\ UNCHANGED <<jobs, cur, names>>
Bad(obs, f(_)) == {k \in Known : obs[k] # f(k)}
TLoad ==
  /\ IsEvent("load")
  /\ Clause("acceptable configuration refused", Acceptable(L) => Ev.res = "ok")
  /\ Clause("unacceptable configuration loaded", Ev.res = "ok" => Acceptable(L))
  /\ (Ev.res = "ok" /\ Acceptable(L)) =>
     LET b == Bad(Ev.obs, LAMBDA k : InForce(L, k)) IN
     /\ Clause("value in force differs", b = {} \/ (PrintT(<<"differs", {<<k, Ev.obs[k], InForce(L, k)>> : k \in b}>>) /\ FALSE))
     /\ Clause("job settings differ from the file", Ev.job = <<Ev.obs["outbase"], Ev.obs["hpix"], Ev.obs["nside"]>>)
     /\ Clause("output path not made", Ev.pathmade)
  /\ IF Ev.res = "ok" THEN jobs' = Append(jobs, Ev.job) /\ cur' = Ev.obs ELSE UNCHANGED <<jobs, cur>>
  /\ Advance /\ UNCHANGED names
TCopy ==
  /\ IsEvent("copy")
  /\ Clause("copy failed", Ev.res = "ok")
  /\ Clause("copy differs from the original, or copying changed another", Ev.jobs = Append(jobs, jobs[Ev.src]))
  /\ jobs' = Ev.jobs /\ Advance /\ UNCHANGED <<cur, names>>
TSetJob ==
  /\ IsEvent("setjob")
  /\ Clause("job setting of one configuration changed another", Ev.jobs = [jobs EXCEPT ![Ev.who][Ev.what] = Ev.s])
  /\ jobs' = Ev.jobs /\ Advance /\ UNCHANGED <<cur, names>>
TSet ==
  /\ IsEvent("set")
  /\ Clause("changed value not in force, or another one changed", Ev.obs = [cur EXCEPT ![Ev.k] = Ev.s])
  /\ Clause("value changed the job settings", Ev.jobs = jobs)
  /\ cur' = Ev.obs /\ Advance /\ UNCHANGED <<jobs, names>>
TReload ==
  /\ IsEvent("reload")
  /\ Clause("writing changed values", Ev.before = cur)
  /\ Clause("configuration cannot be written", Ev.res = "ok")
  /\ Clause("written configuration cannot be read", Ev.res = "ok" => Ev.res2 = "ok")
  /\ (Ev.res2 = "ok") =>
     LET b == Bad(Ev.obs, LAMBDA k : Ev.before[k]) IN Clause("value lost in writing and reading", b = {} \/ (PrintT(<<"differs", {<<k, Ev.obs[k], Ev.before[k]>> : k \in b}>>) /\ FALSE))
  /\ IF Ev.res2 = "ok" THEN jobs' = Append(jobs, Ev.job) /\ cur' = Ev.obs ELSE UNCHANGED <<jobs, cur>>
  /\ Advance /\ UNCHANGED names
TCheck ==
  /\ IsEvent("checkfiles")
  /\ Clause("missing file not reported, or the reverse", (Ev.res = "ok") <=> \A i \in 1..Len(Ev.need) : Ev.need[i].there)
  /\ Advance /\ UNCHANGED <<jobs, cur, names>>
TNames ==
  /\ IsEvent("names")
  /\ Clause("file name failed", \A i \in 1..Len(Ev.fs) : Ev.fs[i].res = "ok")
  /\ Clause("file outside the output path", \A i \in 1..Len(Ev.fs) : Ev.fs[i].inside)
  /\ Clause("different files share a name, or one file has two", NamesDistinct(names \o Ev.fs))
  /\ Clause("path of wrong type accepted", Ev.badpath)
  /\ Clause("job settings changed", Ev.jobs = jobs)
  /\ names' = names \o Ev.fs
  /\ Advance /\ UNCHANGED <<jobs, cur>>
TNext == TSetup \/ TLoad \/ TCopy \/ TSetJob \/ TSet \/ TReload \/ TCheck \/ TNames
TSpec == TInit /\ [][TNext]_<<t, l, jobs, cur, names>>
=============================================================================
