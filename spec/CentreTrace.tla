------------------------------ MODULE CentreTrace ------------------------------
EXTENDS TraceKit, Centre
VARIABLE last    \* the outcome of the same method on the other order
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
S == Traces[t].steps[1]
G == S.gals
BcgSet == Ids(G, LAMBDA g : BcgEligible(S, g))
WcenSet == Ids(G, LAMBDA g : WcenEligible(S, g))
Prob(s) == \A i \in 1..Len(s) : s[i] >= 0 /\ s[i] <= 1000
Centred(e) == e.res = "ok" /\ e.found /\ e.ngood > 0
TInit == KitInit /\ last = [method |-> "none"]
TSetup == IsEvent("setup") /\ Advance /\ UNCHANGED last
Judge(e) ==
  /\ Clause("centring raised an error", e.res = "ok")
  /\ Clause("neighbours changed by centring", e.same)
  /\ Clause("values not finite or of wrong length", e.finite /\ e.lens)
  /\ Clause("more candidates than allowed", e.ngood >= 0 /\ e.ngood <= e.maxcen)
  /\ Clause("centre without success", ~e.found => e.ngood = 0)
  /\ Centred(e) =>
     /\ Clause("entries beyond the candidates filled", e.unused)
     /\ Clause("candidate listed at another place", e.at)
     /\ Clause("centre is not the first candidate", e.maxind = e.index[1])
     /\ Clause("probability out of range", Prob(e.p_cen) /\ Prob(e.q_cen) /\ Prob(e.p_sat) /\ Prob(e.p_fg) /\ Prob(e.p_c))
     /\ Clause("probabilities of a candidate exceed one", \A i \in 1..e.ngood : e.p_cen[i] + e.p_sat[i] + e.p_fg[i] <= 1002)
     /\ Clause("centring probabilities do not add up", Abs(e.sumcen - 10000) <= 5 /\ e.sumq <= 10005)
     /\ Clause("candidates not in order of probability", NonIncreasing(e.p_cen) /\ NonIncreasing(e.q_cen))
     /\ IF e.method = "random"
        THEN Clause("random centre outside the cluster or on a galaxy", e.index = <<-1>> /\ e.dist <= S.rl + 5)
        ELSE /\ Clause("candidate is no neighbour", \A i \in 1..e.ngood : \E k \in 1..Len(G) : G[k].id = e.index[i])
             /\ Clause("candidate listed twice", Distinct(e.index))
  /\ e.method = "bcg" /\ e.res = "ok" =>
     /\ Clause("bright galaxy method finds a centre exactly when a galaxy is eligible", Centred(e) <=> BcgSet # {})
     /\ Centred(e) /\ BcgSet # {} => Clause("not the brightest eligible galaxy",
            /\ e.index[1] \in BcgSet
            /\ \A id \in BcgSet : GalOf(G, id).mag >= GalOf(G, e.index[1]).mag)
  /\ e.method = "wcen" /\ e.res = "ok" =>
     /\ Clause("centre though no galaxy is eligible", WcenSet = {} => ~Centred(e))
     /\ Clause("no centre and no certain miss", ~Centred(e) => WcenSet = {} \/ e.qmiss = 1000)
     /\ Centred(e) =>
        /\ Clause("candidate not eligible", \A i \in 1..e.ngood : e.index[i] \in WcenSet)
        /\ Clause("single-candidate probabilities not in order", NonIncreasing(e.p_c))
        /\ Clause("probabilities inconsistent with the single-candidate ones",
             \A i, j \in 1..e.ngood : Abs(e.p_cen[i] * e.p_c[j] * (1000 - e.p_c[i]) - e.p_cen[j] * e.p_c[i] * (1000 - e.p_c[j])) <= 3000000)
        /\ Clause("probabilities that allow a miss inconsistent with the single-candidate ones", (\A i \in 1..e.ngood : e.p_c[i] <= 950) =>
             LET odds(i) == (1000 * e.p_c[i]) \div (1000 - e.p_c[i])
                 all == Sum([i \in 1..e.ngood |-> odds(i)])
             IN \A i \in 1..e.ngood : Abs((e.q_cen[i] * (1000 + all)) \div 1000 - odds(i)) <= 6 + odds(i) \div 20 + all \div 400)
     /\ Clause("without a credible candidate not the nearest eligible galaxy", (e.found /\ e.ngood = 0) =>
             e.maxind \in WcenSet /\ \A id \in WcenSet : GalOf(G, id).r >= GalOf(G, e.maxind).r - 1)
  /\ e.method = "sat" /\ Centred(e) =>
     Clause("random satellite is no member", GalOf(G, e.index[1]).pmem > 0)
TCentre == IsEvent("centre") /\ Judge(Ev) /\ last' = Ev /\ Advance
CloseSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= 2
TAgain == /\ IsEvent("again") /\ Judge(Ev)
          /\ Clause("result depends on the order of the neighbours",
               /\ last.method = Ev.method /\ last.found = Ev.found /\ last.ngood = Ev.ngood
               /\ CloseSeq(last.p_cen, Ev.p_cen) /\ CloseSeq(last.q_cen, Ev.q_cen) /\ CloseSeq(last.p_c, Ev.p_c)
               /\ CloseSeq(last.p_sat, Ev.p_sat) /\ CloseSeq(last.p_fg, Ev.p_fg)
               (* equally probable candidates may swap *)
               /\ \A i \in 1..last.ngood : last.index[i] = Ev.index[i] \/ (\E j \in 1..last.ngood : j # i /\ Abs(last.p_c[i] - last.p_c[j]) <= 1) \/ Ev.method = "bcg")
          /\ Advance /\ UNCHANGED last
(* all eligible galaxies of non-zero likelihood compete: one more or less eligible galaxy is one more or less candidate *)
TVary == /\ IsEvent("vary")
         /\ Clause("centring raised an error", Ev.res = "ok")
         /\ Clause("probability not in proportion to availability", (Ev.pc[1] >= 0 /\ Ev.pc[2] >= 0 /\ Ev.pc[1] <= 990 /\ Ev.pf[1] > 0) =>
                      (Ev.pf[1] # Ev.pf[2] => Abs(Ev.pc[2] * Ev.pf[1] - Ev.pc[1] * Ev.pf[2]) <= 200))
         /\ Clause("eligible galaxy not considered, or the reverse",
              {Ev.index[i] : i \in 1..Len(Ev.index)} = {Ev.was[i] : i \in 1..Len(Ev.was)} \ (IF WcenEligible(S, Ev.now) THEN {} ELSE {Ev.id}))
         /\ Advance /\ UNCHANGED last
TNext == TVary \/ TSetup \/ TCentre \/ TAgain
TSpec == TInit /\ [][TNext]_<<t, l, last>>
===============================================================================
