----------------------------- MODULE BatchTrace -----------------------------
EXTENDS TraceKit, Batch
VARIABLE files     \* job files present
Set(s) == {s[i] : i \in 1..Len(s)}
TInit == KitInit /\ files = {}
Region == Traces[t].steps[1].region
TSetup == IsEvent("setup") /\ Advance /\ UNCHANGED files
TRemove == IsEvent("remove") /\ Advance /\ files' = files \ {Ev.name}
TOther == IsEvent("other") /\ Advance /\ files' = files \cup {Ev.name}
Commands(got, task, nside) ==
  /\ Clause("job command fails", \A i \in DOMAIN got : got[i].res = "ok")
  /\ Clause("job command runs something else", \A i \in DOMAIN got : got[i].task = task)
  /\ Clause("job at another resolution", \A i \in DOMAIN got : got[i].nside = nside)
  /\ Clause("job of another configuration", \A i \in DOMAIN got : got[i].cfg)
  /\ Clause("job writes to another path", \A i \in DOMAIN got : got[i].path)
TSubmit ==
  /\ IsEvent("submit")
  /\ Clause("existing job file replaced or removed", Set(Ev.lost) = {})
  /\ IF Region
     THEN Clause("survey restricted to a region not refused", Ev.res # "ok" /\ Ev.new = <<>>)
     ELSE /\ Clause("submission failed", Ev.res = "ok")
          /\ Ev.res = "ok" =>
             /\ Clause("not exactly one new job file", Len(Ev.new) = 1 /\ Set(Ev.new) \cap files = {})
             /\ Clause("job file does not run", Ev.rc = 0)
             /\ Clause("commands do not cover the pixels exactly once", Covers(Ev.got, Set(Ev.want)))
             /\ Commands(Ev.got, TaskOf(Ev.mode), Ev.nside)
             /\ Clause("job array of another size", Ev.sys = "lsf" => Ev.size = Cardinality(Set(Ev.want)))
             /\ Clause("walltime not as requested", ((Ev.sys = "lsf" \/ Ev.slurm) /\ Ev.wall # 0) => Ev.gotwall = Ev.wall)
             /\ Clause("nodes or site options not as requested", Ev.slurm => (Ev.gotnodes = Ev.nodes /\ Ev.opts))
             /\ Clause("site setup not done", Ev.marks)
             /\ Clause("jobs share a log file", Distinct(Ev.outs))
             /\ Clause("container image not as configured", Ev.img # "" => Ev.imgs = [i \in 1..Len(Ev.got) |-> Ev.img])
             /\ Clause("mask galaxies missing", Ev.mode # 1 => Ev.maskgals)
  /\ files' = files \cup Set(Ev.new)
  /\ Advance
TSame ==
  /\ IsEvent("samenode")
  /\ Clause("submission failed", Ev.res = "ok")
  /\ Clause("commands do not cover the pixels exactly once", Covers(Ev.got, Set(Ev.want)))
  /\ Commands(Ev.got, "RunZredPixelTask", 8)
  /\ Advance /\ UNCHANGED files
TPbs == IsEvent("pbs") /\ Clause("submission failed", Ev.res = "ok") /\ Advance /\ UNCHANGED files
TNext == TPbs \/ TSetup \/ TRemove \/ TOther \/ TSubmit \/ TSame
TSpec == TInit /\ [][TNext]_<<t, l, files>>
=============================================================================
