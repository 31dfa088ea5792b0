------------------------------- MODULE PassesTrace -------------------------------
EXTENDS TraceKit, Passes
TInit == KitInit /\ PInit(<<>>)
Ks(R) == {R[i].k : i \in 1..Len(R)}
NearZ(a, b) == Abs(a - b) <= 1
TFirst ==
    /\ IsEvent("first") /\ Advance /\ UNCHANGED pvars
    /\ Clause("the first pass failed", Ev.res = "ok")
    /\ Ev.res = "ok" =>
       LET C == Ev.cands
           R == Ev.rows
           p == Ev.p
           con == {i \in 1..Len(C) : Considered1(C[i], Ev.mode, Ev.clean, Ev.blo, Ev.bhi, p)}
           ran == {i \in 1..Len(C) : C[i].calls # <<>>}
           have == Ks(R)
           first(i) == IF C[i].far \/ ~C[i].nbr THEN 0 ELSE Begun(C[i], p, 1)
       IN /\ Clause("a galaxy that is no eligible seed was considered", ran \subseteq con)
          /\ Clause("an eligible seed was not considered", \A i \in con : first(i) > 0 => i \in ran)
          /\ Clause("a candidate is kept twice", Cardinality(have) = Len(R))
          /\ Clause("a candidate that is no seed was kept", have \subseteq con)
          /\ Clause("a good candidate was lost", \A i \in con : MustKeep1(C[i], p) => i \in have)
          /\ Clause("a rejected candidate was kept", \A i \in have \cap con : ~MustDrop1(C[i], p))
          /\ Clause("a pass with candidates ended without a catalogue", Ev.none => ~ \E i \in con : MustKeep1(C[i], p))
          /\ Clause("not the configured iterations", \A i \in ran : Len(C[i].calls) = first(i))
          /\ Clause("an iteration does not start from the redshift found before", \A i \in ran : \A j \in 1..Len(C[i].calls) :
                      LET want == IF j = 1 \/ Ev.keepz THEN C[i].z0 ELSE C[i].zl[j - 1]
                          k == C[i].calls[j]
                      IN NearZ(k.zr, want) /\ (k.zin > 0 => NearZ(k.zin, want)))
          /\ 0 \notin have =>
             /\ Clause("a kept candidate carries the values of another", \A i \in 1..Len(R) : R[i].own)
             /\ Clause("radius does not follow the relation configured for the pass", \A i \in 1..Len(R) : Abs(R[i].rad - 10000) <= 5)
             /\ Clause("richness recorded is not that found last", \A i \in 1..Len(R) : R[i].lam = C[R[i].k].lam[p.niter] /\ R[i].sc = C[R[i].k].sc)
             /\ Clause("redshift recorded is not that found last", \A i \in 1..Len(R) : NearZ(R[i].zl, C[R[i].k].zl[p.niter]))
             /\ Clause("redshift passed on is not the right one", \A i \in 1..Len(R) : LET c == C[R[i].k] IN
                         IF Ev.mode = "spec" THEN NearZ(R[i].z, c.z0) ELSE Ev.keepz \/ NearZ(R[i].z, c.zl[p.niter]))
TLike ==
    /\ IsEvent("like") /\ Advance /\ UNCHANGED pvars
    /\ Clause("the likelihood pass failed", Ev.res = "ok")
    /\ Ev.res = "ok" =>
       LET C == Ev.cands
           R == Ev.rows
           p == Ev.p
           con == {i \in 1..Len(C) : Considered2(C[i], Ev.clean, p)}
           ran == {i \in 1..Len(C) : C[i].seen}
           have == Ks(R)
       IN /\ Clause("an ineligible candidate was considered", ran \subseteq con)
          /\ Clause("an eligible candidate was not considered", \A i \in con : (C[i].nbr /\ ~C[i].far) => i \in ran)
          /\ Clause("a candidate is kept twice", Cardinality(have) = Len(R))
          /\ Clause("an ineligible candidate was kept", have \subseteq con)
          /\ Clause("a good candidate was lost", \A i \in con : MustKeep2(C[i], p) => i \in have)
          /\ Clause("a rejected candidate was kept", \A i \in have \cap con : ~MustDrop2(C[i], p))
          /\ Clause("a pass with candidates ended without a catalogue", Ev.none => ~ \E i \in con : MustKeep2(C[i], p))
          /\ 0 \notin have =>
             /\ Clause("a kept candidate carries the values of another", \A i \in 1..Len(R) : R[i].own /\ R[i].lam = C[R[i].k].lam)
             /\ Clause("radius does not follow the relation configured for the pass", \A i \in 1..Len(R) : Abs(R[i].rad - 10000) <= 5)
             /\ Clause("member likelihood is not that of its members", \A i \in 1..Len(R) : Abs(R[i].lnlam - LamLike(C[R[i].k])) <= 3 + Len(C[R[i].k].mem))
             /\ Clause("total likelihood is not the sum of its terms", \A i \in 1..Len(R) : R[i].bcg > -2000000000 => Abs(R[i].ln - (R[i].lnlam + R[i].bcg)) <= 3)
             /\ Clause("centre likelihood without calibration", \A i \in 1..Len(R) : ~Ev.calibrated => R[i].bcg = 0)
             /\ Clause("centre likelihood is not that of its centre", \A i \in 1..Len(R) : (Ev.calibrated /\ C[R[i].k].judge) => Abs(R[i].bcg - C[R[i].k].bcg) <= 100 + Abs(C[R[i].k].bcg) \div 100)
TNext == TFirst \/ TLike
TSpec == TInit /\ [][TNext]_<<pvars, t, l>>
==================================================================================
