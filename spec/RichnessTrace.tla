----------------------------- MODULE RichnessTrace -----------------------------
EXTENDS TraceKit, Richness
VARIABLE first
S == Traces[t].steps[1]
TInit == KitInit /\ lo = 0 /\ hi = 1 /\ first = [res |-> "none"]
TSetup == IsEvent("setup") /\ Advance /\ UNCHANGED <<lo, hi, first>>
(* the probabilities belong to the last tried value, up to 0.8 hundredths away *)
Slack(lam) == IF lam < 300 THEN 10 ELSE 3
Loose(lam) == IF lam < 300 THEN 80 ELSE 25
Product(p, w, th) == (((p * w) \div 100) * th) \div 10000
Adds(lam, sum, cv) == Abs(lam * (10000 - cv) - sum * 10000) <= (IF S.rsig = 0 THEN 1050000 + 30000 * (IF cv > 0 THEN 2 ELSE 1) ELSE 60000 + lam * 20)
Consistent(e) ==
  /\ Clause("radius does not follow the richness", Abs(e.rlam - e.rel) <= 2)
  /\ Clause("memberships do not add up to the richness", IF e.lam > 190000 THEN e.cv >= 9000 ELSE e.lam >= 150 => (e.cv <= 10000 /\ Adds(e.lam, e.sum, e.cv)))
SolverGals(e) ==
  \A i \in 1..Len(e.gals) :
     LET g == e.gals[i]
         q == S.gals[i]
     IN /\ Clause("probability out of range", g.p >= 0 /\ g.p <= 1000 /\ g.wt >= 0 /\ g.wt <= 1000)
        /\ Clause("galaxy that is not available counts", q.w = 0 => g.wt = 0)
        /\ Clause("galaxy not like the cluster has a probability", q.u = 0 => g.p = 0)
        /\ Clause("galaxy without background is not certain", (q.b = 0 /\ q.u > 0) => g.p = 1000)
        /\ e.lam > 0 =>
           /\ Clause("edge of the cluster", EdgeOk(g.th, q.r, e.rlam, S.rsig, Slack(e.lam)))
           /\ Clause("effective membership is not the product", (S.rsig > 0 \/ Abs(q.r - e.rlam) > Slack(e.lam)) => Abs(g.wt - Product(g.p, q.w, g.th)) <= Loose(e.lam))
(* the odds of two galaxies are in the ratio of their signal to background *)
Odds(e) == Clause("probabilities not in the ratio of signal to background",
  e.lam > 0 => \A i, j \in 1..MinOf(8, Len(e.gals)) :
     Abs(e.gals[i].p * S.gals[i].b * (1000 - e.gals[j].p) * S.gals[j].u - e.gals[j].p * S.gals[j].b * (1000 - e.gals[i].p) * S.gals[i].u) <= 2000000)
TSolve == /\ IsEvent("solve")
          /\ Clause("solver failed", Ev.res = "ok")
          /\ Clause("inputs changed", Ev.same)
          /\ Clause("neither a richness nor its absence", (Ev.lam >= 100 /\ Ev.rlam > 0) \/ (Ev.lam = -100 /\ Ev.rlam = -1000))
          /\ Ev.lam > 0 => Consistent(Ev)
          /\ SolverGals(Ev) /\ Odds(Ev)
          /\ first' = Ev /\ UNCHANGED <<lo, hi>> /\ Advance
TSame == /\ IsEvent("same")
         /\ Clause("inputs changed", Ev.same)
         /\ Clause("result changed by " \o Ev.why,
              /\ Ev.res = "ok" /\ Ev.lam = first.lam /\ Ev.rlam = first.rlam
              /\ Len(Ev.gals) = Len(first.gals)
              /\ \A i \in 1..Len(Ev.gals) : Ev.gals[i] = first.gals[i])
         /\ UNCHANGED <<lo, hi, first>> /\ Advance
Measure ==
  /\ Clause("measurement failed with an error", Ev.res = "ok")
  /\ Clause("returned richness differs from the recorded one", Ev.lam = Ev.attr)
  /\ Clause("galaxies not given have values", Ev.rest)
  /\ Clause("galaxies fainter than the limit count", Ev.faint)
  /\ Clause("complete galaxies count less", Ev.bright)
  /\ Clause("colour probability out of range or outside the cluster", Ev.pcol)
  /\ Clause("error of a measurement that failed", Ev.err)
  /\ Clause("masked fraction is not that of the mask", Ev.direct >= 0 => Abs(Ev.direct - Ev.cv) <= 300)
  /\ IF ~Ev.ok THEN Clause("no richness but members, or no negative value", Ev.lam < 0 /\ Ev.scale < 0 /\ Ev.zero)
     ELSE /\ Consistent(Ev)
          /\ Clause("scale factor does not turn the members into the richness", Abs((Ev.sum * Ev.scale) \div 1000 - Ev.lam) <= 5 + Ev.lam \div 500 + Ev.scale \div 1000 + Ev.sum \div 1000)
          /\ Clause("masking not in the error, or unmasked in it", Ev.errs \/ Ev.rev)
          /\ Clause("masking in the error according to the reversed mask correction", Ev.errs \/ ~Ev.rev)
          /\ \A i \in 1..Len(Ev.gals) :
               LET g == Ev.gals[i]
               IN /\ Clause("probability out of range", g.p >= 0 /\ g.p <= 1000 /\ g.wt >= 0 /\ g.wt <= 1000)
                  /\ Clause("edge of the cluster", EdgeOk(g.th, g.r, Ev.rlam, S.rsig, Slack(Ev.lam)))
                  /\ Clause("effective membership is not the product", (S.rsig > 0 \/ Abs(g.r - Ev.rlam) > Slack(Ev.lam)) => Abs(g.wt - Product(g.p, g.w, g.th)) <= Loose(Ev.lam))
TMeasure == IsEvent("measure") /\ Measure /\ first' = Ev /\ UNCHANGED <<lo, hi>> /\ Advance
TRemeasure == /\ IsEvent("remeasure") /\ Measure
              /\ Clause("result changed by the order of the neighbours", first.ok = Ev.ok /\ Abs(first.lam - Ev.lam) <= 3 /\ Abs(first.sum - Ev.sum) <= 3)
              /\ UNCHANGED <<lo, hi, first>> /\ Advance
TNext == TSetup \/ TSolve \/ TSame \/ TMeasure \/ TRemeasure
TSpec == TInit /\ [][TNext]_<<t, l, lo, hi, first>>
===============================================================================
