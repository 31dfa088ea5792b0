------------------------------ MODULE IngestTrace ------------------------------
EXTENDS TraceKit, Ingest
S1 == Traces[t].steps[1]
TInit == KitInit /\ Open(S1.gen)
TOpen == IsEvent("open") /\ Advance /\ UNCHANGED ivars
TBatch == /\ IsEvent("batch")
          /\ Clause("a good batch was refused", Ev.res = "ok")
          /\ AddBatch(ToSet(Ev.rows)) /\ Advance
TBad == /\ IsEvent("bad")
        /\ Clause("not refused", Ev.res # "ok")
        /\ Clause("a refused request changed the files on disk", ~Ev.changed)
        /\ Refuse /\ Advance
Gids(S) == {g.gid : g \in S}
(* the observed files *)
TotalRows == MapThenSumSet(LAMBDA i : Len(Ev.files[i].gids), 1..Len(Ev.files))
JudgeFiles ==
  /\ Clause("a galaxy is in the catalogue twice",
            Cardinality(UNION {ToSet(Ev.files[i].gids) : i \in 1..Len(Ev.files)}) = TotalRows)
  /\ Clause("galaxies lost or invented",
            UNION {ToSet(Ev.files[i].gids) : i \in 1..Len(Ev.files)} = Gids(cat))
  /\ Clause("a galaxy is in the wrong pixel file",
            \A i \in 1..Len(Ev.files) : ToSet(Ev.files[i].gids) = Gids(InPixel(Ev.files[i].pix)))
  /\ Clause("galaxy values changed", Ev.same)
JudgeMaster ==
  LET m == Ev.master IN
  /\ Clause("master table missing", m.present)
  /\ m.present =>
     /\ Clause("master table does not list exactly the non-empty pixels",
               ToSet(m.hpix) = Pixels /\ Distinct(m.hpix))
     /\ Clause("master table columns are not in the same order",
               /\ Len(m.ngals) = Len(m.hpix) /\ Len(m.names) = Len(m.hpix) /\ Len(m.centres) = Len(m.hpix)
               /\ \A i \in 1..Len(m.hpix) : /\ m.ngals[i] = Cardinality(InPixel(m.hpix[i]))
                                            /\ m.names[i] = m.hpix[i] /\ m.centres[i] = m.hpix[i])
     /\ Clause("wrong resolution in master table", m.nside = S1.nside)
TFinal ==
  /\ IsEvent("final")
  /\ IF IdsUnique
     THEN /\ Clause("finalisation failed", Ev.res = "ok")
          /\ JudgeFiles /\ JudgeMaster
          /\ Clause("ids of the finished catalogue are not unique",
                    Cardinality(UNION {ToSet(Ev.files[i].ids) : i \in 1..Len(Ev.files)}) = TotalRows)
          /\ Clause("lock or other files left behind", Ev.other = 0)
          /\ Finalise
     ELSE /\ Clause("duplicate ids over the catalogue were not reported", Ev.res # "ok")
          /\ Clause("a catalogue with duplicate ids was published", ~Ev.master.present)
          /\ Clause("lock or other files left behind", Ev.other = 0)
          /\ JudgeFiles
          /\ FinaliseFails
  /\ Advance
TNext == TOpen \/ TBatch \/ TBad \/ TFinal
TSpec == TInit /\ [][TNext]_<<ivars, t, l>>
===============================================================================
