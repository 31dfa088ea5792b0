---------------------------- MODULE IngestParTrace ----------------------------
EXTENDS TraceKit, IngestPar
S1 == Traces[t].steps[1]
TInit == /\ KitInit
         /\ rows = [b \in 1..Len(S1.batches) |-> ToSet(S1.batches[b].rows)]
         /\ own = [b \in 1..Len(S1.batches) |-> S1.batches[b].w]
         /\ st = [b \in 1..Len(S1.batches) |-> "todo"]
         /\ dead = {} /\ fin = [w \in 1..S1.n |-> "no"]
TOpen == IsEvent("open") /\ Advance /\ UNCHANGED pvars
TStart == IsEvent("start") /\ Start(Ev.b) /\ Advance
TRet == /\ IsEvent("ret") /\ Advance
        /\ IF Ev.res = "ok" THEN Done(Ev.b)
           ELSE /\ Clause("a batch failed although no worker died", dead # {})
                /\ IF dead # {} THEN Failed(Ev.b) ELSE st' = [st EXCEPT ![Ev.b] = "failed"] /\ UNCHANGED <<rows, own, dead, fin>>
TCrash == IsEvent("crash") /\ Die(Ev.w) /\ Advance
TFin == /\ IsEvent("fin") /\ Advance /\ Fin(Ev.w, Ev.res = "ok")
        /\ Clause("finalisation failed although no worker died", Ev.res = "ok" \/ dead # {})
Locked(p) == p \in ToSet(Ev.locked)       \* a lock file of the pixel is left behind
FileAt(p) == UNION {ToSet(Ev.files[i].gids) : i \in {k \in 1..Len(Ev.files) : Ev.files[k].pix = p}}
ById(S) == UNION {ToSet(Ev.files[i].ids) : i \in 1..Len(Ev.files)}
TotalRows == MapThenSumSet(LAMBDA i : Len(Ev.files[i].gids), 1..Len(Ev.files))
Torn(p) == Locked(p) /\ dead # {}         \* its worker died in the middle: only what was acknowledged counts
TEnd ==
  /\ IsEvent("end") /\ Advance /\ UNCHANGED pvars
  /\ Clause("a worker hung", Ev.finished)
  /\ Clause("lock files left behind although no worker died", dead = {} => (Ev.locked = <<>> /\ Ev.other = 0))
  /\ Clause("a galaxy is in the catalogue twice",
            \A i \in 1..Len(Ev.files) : Torn(Ev.files[i].pix) \/ Distinct(Ev.files[i].gids))
  /\ Clause("galaxies lost or duplicated by concurrent workers",
            \A p \in AllPix : Torn(p) \/ Explains(p, FileAt(p)))
  /\ Clause("acknowledged galaxies lost", \A p \in AllPix : (p \in ToSet(Ev.unreadable)) \/ Gids(At({"done"}, p)) \subseteq FileAt(p))
  /\ Clause("a file is unreadable that no dead worker had locked", \A p \in ToSet(Ev.unreadable) : Torn(p))
  /\ Clause("a file that a dead worker had locked was changed", Ev.touched = <<>>)
  /\ Clause("galaxy values changed", Ev.same \/ Ev.locked # <<>>)
  /\ Clause("no master table although nobody died", dead = {} => Ev.master.present)
  /\ Clause("master table differs from the files",
            Ev.master.present /\ Ev.unreadable = <<>> =>
            LET m == Ev.master
                ne == {p \in AllPix : FileAt(p) # {}}
            IN /\ ToSet(m.hpix) = ne /\ Distinct(m.hpix) /\ Len(m.ngals) = Len(m.hpix)
               /\ \A i \in 1..Len(m.hpix) : m.ngals[i] = Cardinality(FileAt(m.hpix[i])) /\ m.names[i] = m.hpix[i])
  /\ Clause("master table is not the one of a serial ingest", dead = {} => Ev.serial)
  /\ Clause("ids of the finished catalogue are not unique",
            Ev.master.present => Cardinality(ById(1)) = TotalRows)
TNext == TOpen \/ TStart \/ TRet \/ TCrash \/ TFin \/ TEnd
TSpec == TInit /\ [][TNext]_<<pvars, t, l>>
===============================================================================
