---------------------------- MODULE LocalSplitTrace ----------------------------
EXTENDS TraceKit, LocalSplit
TInit == KitInit
Sv == [galk |-> Ev.galk, gal |-> ToSet(Ev.gal), regk |-> Ev.regk, region |-> ToSet(Ev.region), mink |-> Ev.mink, nproc |-> Ev.nproc]
TSplit ==
  /\ IsEvent("split")
  /\ LET ok == \A i \in 1..Len(Ev.jobs) : Ev.jobs[i].ok
         ks == {Ev.jobs[i].k : i \in 1..Len(Ev.jobs)}
         pixs == [i \in 1..Len(Ev.jobs) |-> Ev.jobs[i].pix]
         jobs == ToSet(pixs)
         k == CHOOSE x \in ks : TRUE
     IN /\ Clause("run failed", Ev.res = "ok")
        /\ Clause("no jobs", Len(Ev.jobs) > 0)
        /\ Clause("a job is not one pixel of a valid resolution", ok)
        /\ IF ok /\ Len(Ev.jobs) > 0
           THEN /\ Clause("jobs of different resolutions", Cardinality(ks) = 1)
                /\ Clause("a pixel is run twice", Distinct(pixs))
                /\ Clause("resolution is not the finest within twice the process count", k = Chosen(Sv))
                /\ (k <= Ev.galk) =>
                    /\ Clause("galaxy pixels of the region are not covered", Covers(Sv, k, jobs))
                    /\ Clause("a job has no galaxies of the region", NonEmpty(Sv, k, jobs))
                    /\ Clause("a job lies outside the region", Inside(Sv, k, jobs))
                /\ Clause("a job lost the cosmology", \A i \in 1..Len(Ev.jobs) : Ev.jobs[i].cosmo)
           ELSE TRUE
  /\ Advance
TNext == TSplit
TSpec == TInit /\ [][TNext]_<<t, l>>
===============================================================================
