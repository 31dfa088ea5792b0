----------------------------- MODULE MeasureTrace -----------------------------
EXTENDS TraceKit, Measure
VARIABLES solos,   \* rows of the clusters measured alone: [tag, judge, rows]
          pre      \* rows of the run on the first part of the list
tv == <<mvars, solos, pre, t, l>>
S1 == Traces[t].steps[1]
Scan == S1.kind = "scan"
Tol == IF S1.kind = "region" THEN 60 ELSE 3
Close(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= Tol + (IF S1.kind = "region" THEN Abs(a[i]) \div 500 ELSE 0)
Same(a, b) == /\ a.good = b.good
              /\ Close(a.vec, b.vec)
              /\ a.mem = b.mem
              /\ a.cent = b.cent
TInit == KitInit /\ MInit(<<>>) /\ solos = <<>> /\ pre = [n |-> 0, rows |-> <<>>]
TSetup == IsEvent("setup") /\ input' = Ev.tags /\ UNCHANGED <<pos, taken, out, solos, pre>> /\ Advance
TSolo == /\ IsEvent("solo")
         /\ Clause("measuring one cluster failed", Ev.res = "ok")
         /\ Clause("cluster alone not kept", ~Scan => Len(Ev.rows) = 1)
         /\ solos' = Append(solos, [tag |-> Ev.tag, judge |-> Ev.judge, rows |-> Ev.rows])
         /\ UNCHANGED <<mvars, pre>> /\ Advance
TPrefix == /\ IsEvent("prefix")
           /\ Clause("measuring the first clusters failed", Ev.res = "ok")
           /\ pre' = [n |-> Ev.n, rows |-> Ev.rows]
           /\ UNCHANGED <<mvars, solos>> /\ Advance
Expected == IF Scan THEN SelectSeq(input, LAMBDA g : \E i \in 1..Len(solos) : solos[i].tag = g /\ solos[i].rows # <<>>) ELSE input
IdOf(g) == LET k == CHOOSE k \in 1..Len(input) : input[k] = g IN IF S1.keep THEN S1.ids[k] ELSE k
TRun ==
  /\ IsEvent("run")
  /\ out' = Ev.rows /\ pos' = Len(input)
  /\ Clause("measuring the list failed", Ev.res = "ok")
  /\ Clause("not exactly the expected clusters in list order", [i \in 1..Len(Ev.rows) |-> Ev.rows[i].tag] = Expected)
  /\ Clause("wrong identifier", \A i \in 1..Len(Ev.rows) : Ev.rows[i].tag \in {input[k] : k \in 1..Len(input)} => Ev.rows[i].id = IdOf(Ev.rows[i].tag))
  /\ Clause("position changed", \A i \in 1..Len(Ev.rows) : Ev.rows[i].pos)
  /\ Clause("unmeasured cluster has members or a richness", \A i \in 1..Len(Ev.rows) : ~Ev.rows[i].good => Ev.rows[i].flagged /\ Ev.rows[i].mem = <<>>)
  /\ Clause("member listed twice or for no cluster", \A i \in 1..Len(Ev.rows) : Distinct(Ev.rows[i].mem) /\ Ev.stray = 0)
  /\ Clause("member row does not carry its cluster's redshift", \A i \in 1..Len(Ev.rows) : Ev.rows[i].memz)
  /\ Clause("steps of the scan inconsistent with its result", \A i \in 1..Len(Ev.rows) : Ev.rows[i].steps)
  /\ Clause("redshift distribution not a distribution", \A i \in 1..Len(Ev.rows) : Ev.rows[i].pz)
  /\ Clause("unused centre entries filled", \A i \in 1..Len(Ev.rows) : Ev.rows[i].unused)
  /\ Clause("result depends on the other clusters of the list",
       S1.kind # "mask" => \A i \in 1..Len(Ev.rows) : \A k \in 1..Len(solos) :
          (solos[k].tag = Ev.rows[i].tag /\ solos[k].judge /\ solos[k].rows # <<>>) => Same(Ev.rows[i], solos[k].rows[1]))
  /\ Clause("first cluster affected by later ones",
       (S1.kind = "mask" /\ Ev.rows # <<>> /\ solos[1].rows # <<>>) => Same(Ev.rows[1], solos[1].rows[1]))
  /\ Clause("earlier clusters affected by later ones",
       S1.kind = "mask" => /\ Len(pre.rows) = pre.n
                           /\ \A i \in 1..MinOf(pre.n, Len(Ev.rows)) : i <= Len(pre.rows) => Same(Ev.rows[i], pre.rows[i]))
  /\ UNCHANGED <<input, taken, solos, pre>> /\ Advance
TNext == TSetup \/ TSolo \/ TPrefix \/ TRun
TSpec == TInit /\ [][TNext]_tv
===============================================================================
