---------------------------- MODULE PercolateTrace ----------------------------
EXTENDS TraceKit, Percolate
TOne == 64
VARIABLES fuzzy,   \* galaxies whose allocation the harness cannot decide (on a limit within rounding)
          ids      \* id of each processed candidate, in order
tvars == <<pvars, fuzzy, ids, t, l>>
S1 == Traces[t].steps[1]
J(p) == S1.judge = p
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
SetOf(s) == {s[i] : i \in 1..Len(s)}
Cand(tag) == S1.cands[CHOOSE i \in 1..Len(S1.cands) : S1.cands[i].tag = tag]
(* the candidates to be processed *)
Sel == SelectSeq(S1.cands, LAMBDA c : S1.cat \/ (c.z /\ c.fin /\ c.rich /\ c.bright /\ (S1.clean => c.foot)))
SelTags == {Sel[i].tag : i \in 1..Len(Sel)}
SelIds == {Sel[i].id : i \in 1..Len(Sel)}
KeepIds == S1.cat \/ S1.keepid
(* ids that are all the same are unset; a single cluster has an id when it is positive *)
IdsUnset == Cardinality(SelIds) = 1 /\ (Len(Sel) > 1 \/ Sel[1].id <= 0)
Refused == KeepIds /\ Sel # <<>> /\ ~IdsUnset /\ Cardinality(SelIds) # Len(Sel)
DoneTags == {done[i].tag : i \in 1..Len(done)}
Before(a, b) == IF S1.cat THEN FALSE ELSE IF S1.keepid THEN a.id < b.id ELSE a.ln > b.ln
InOrder(c) == \A i \in 1..Len(Sel) : Sel[i].tag \notin DoneTags => ~Before(Sel[i], c)
InputOrder(c) == S1.cat => \A i \in 1..Len(Sel) : (Sel[i].tag \notin DoneTags) => Sel[i].tag >= c.tag
F(g) == Free(taken, S1.masking, g)
Known(g) == g \notin fuzzy

TInit == KitInit /\ fuzzy = {} /\ ids = <<>> /\ PInit({}, <<>>)
TSetup == /\ IsEvent("setup") /\ Advance
          /\ taken' = [g \in SetOf(Ev.gals) |-> 0]
          /\ UNCHANGED <<queue, done, gave, fuzzy, ids>>
Claimed(c) == c.near # 0 /\ F(c.near) < S1.cut
TCluster ==
  /\ IsEvent("cluster")
  /\ IF Ev.tag \notin {S1.cands[i].tag : i \in 1..Len(S1.cands)} \/ Ev.tag \in DoneTags \/ Ev.tag \notin SelTags
     THEN Clause("a candidate is processed that must not be", ~J("C09"))
     ELSE
       LET c == Cand(Ev.tag) IN
       /\ Clause("candidates are not processed in rank order", J("C09") => InOrder(c) /\ InputOrder(c))
       /\ Clause("candidates are not numbered in processing order", J("C09") /\ ~KeepIds => Ev.id = Len(done) + 1)
       /\ Clause("input ids are not kept", J("C10") /\ KeepIds => Ev.id = IF IdsUnset THEN Len(done) + 1 ELSE c.id)
       /\ Clause("a galaxy is not as available as the clusters before left it",
                 J("C08") => \A i \in 1..Len(Ev.first) : Known(Ev.first[i][1]) => Ev.first[i][2] = F(Ev.first[i][1]))
       /\ Clause("availability changes while a cluster is measured", J("C08") => Ev.same /\ Ev.exact)
       /\ Clause("the masking radius is not the configured one", J("C08") => Ev.rmask)
       /\ Clause("wrong neighbours", J("C10") /\ Ev.first # <<>> => {Ev.first[i][1] : i \in 1..Len(Ev.first)} = SetOf(c.nbr))
       /\ Clause("recorded richness is not the measured one", J("C10") => Ev.lam)
       /\ Clause("a cluster with a claimed centre is accepted",
                 J("C09") /\ ~S1.cat /\ Ev.accepted => ((c.near # 0 /\ Known(c.near)) => ~Claimed(c)) /\ ((Ev.final >= 0 /\ Known(Ev.final)) => F(Ev.final) >= S1.cut))
       /\ Clause("a cluster that is too poor or failed is accepted",
                 J("C09") /\ Ev.accepted => /\ Ev.called /\ \A i \in 1..Len(Ev.totals) : Ev.totals[i] >= S1.minlam
                                            /\ Ev.zout /\ Ev.cent)
       /\ Clause("a good cluster is rejected",
                 J("C09") /\ ~Ev.accepted => \/ c.near = 0 \/ ~c.foot
                                             \/ ~S1.cat /\ (Claimed(c) \/ ~Known(c.near) \/ c.inner < 2 \/ Ev.few \/ ~Ev.cent \/ Ev.alone)
                                             \/ ~S1.cat /\ Ev.final >= 0 /\ (~Known(Ev.final) \/ F(Ev.final) < S1.cut)
                                             \/ \E i \in 1..Len(Ev.totals) : Ev.totals[i] < S1.minlam
                                             \/ Ev.zbad)
  /\ done' = Append(done, [tag |-> Ev.tag, accepted |-> Ev.accepted])
  /\ taken' = IF Ev.accepted THEN Add(taken, Ev.take) ELSE taken
  /\ gave' = gave \cup {[tag |-> Ev.tag, gal |-> Ev.take[i][1], p |-> Ev.take[i][2], free |-> LET k == {j \in 1..Len(Ev.first) : Ev.first[j][1] = Ev.take[i][1]} IN IF k = {} THEN 0 ELSE Ev.first[CHOOSE j \in k : TRUE][2]]
                          : i \in 1..Len(Ev.take)}
  /\ fuzzy' = fuzzy \cup SetOf(Ev.fuzzy)
  /\ ids' = Append(ids, Ev.id)
  /\ Advance /\ UNCHANGED queue
ClusterStep(tag) == CHOOSE i \in 1..Len(Steps) : Steps[i].op = "cluster" /\ Steps[i].tag = tag
Recorded(id) == {Ev.members[i].gal : i \in {j \in 1..Len(Ev.members) : Ev.members[j].id = id}}
TOutput ==
  /\ IsEvent("output")
  /\ IF Refused
     THEN Clause("non-unique ids are not refused", J("C10") => Ev.res = "RuntimeError")
     ELSE
       /\ Clause("run failed", Ev.res = "ok")
       /\ Clause("catalogue made of nothing", Ev.none => Sel = <<>>)
       /\ Clause("a candidate is not processed", J("C09") /\ Ev.res = "ok" => DoneTags = SelTags)
       /\ Clause("wrong clusters in the output, or not in processing order",
                 J("C09") /\ Ev.res = "ok" => [i \in 1..Len(Ev.rows) |-> Ev.rows[i].tag] =
                     LET o == IF S1.cat THEN done ELSE Output IN [i \in 1..Len(o) |-> o[i].tag])
       /\ Clause("an output cluster does not have its id", J("C10") /\ Ev.res = "ok" =>
                 \A i \in 1..Len(Ev.rows) : \E k \in 1..Len(done) : done[k].tag = Ev.rows[i].tag /\ ids[k] = Ev.rows[i].id)
       /\ Clause("cluster ids are not unique", J("C10") => Distinct([i \in 1..Len(Ev.rows) |-> Ev.rows[i].id]))
       /\ Clause("a member belongs to no output cluster", J("C10") =>
                 \A i \in 1..Len(Ev.members) : \E k \in 1..Len(Ev.rows) : Ev.rows[k].id = Ev.members[i].id /\ Ev.rows[k].good)
       /\ Clause("a galaxy is recorded twice for a cluster", J("C10") => Distinct([i \in 1..Len(Ev.members) |-> <<Ev.members[i].id, Ev.members[i].gal>>]))
       /\ Clause("a member does not carry its galaxy's values", J("C10") => \A i \in 1..Len(Ev.members) : Ev.members[i].same)
       /\ Clause("a member does not carry its membership values", J("C10") => \A i \in 1..Len(Ev.members) : Ev.members[i].val)
       /\ Clause("the files do not hold the catalogue and its members", J("C10") => Ev.files)
       /\ Clause("wrong members", J("C10") /\ Ev.res = "ok" =>
                 \A i \in 1..Len(Ev.rows) : Ev.rows[i].good /\ Ev.rows[i].tag \in DoneTags =>
                    LET s == Steps[ClusterStep(Ev.rows[i].tag)]
                        must == SetOf(s.expect) \cup SetOf(s.cands)
                        got == Recorded(Ev.rows[i].id)
                    IN (must \ SetOf(s.maybe)) \subseteq got /\ got \subseteq must \cup SetOf(s.maybe))
       /\ Clause("centre of an output cluster is not its central galaxy", J("C10") => \A i \in 1..Len(Ev.rows) : Ev.rows[i].pos /\ Ev.rows[i].orig)
       /\ Clause("the listed centring candidates are not the candidates", J("C10") => \A i \in 1..Len(Ev.rows) : Ev.rows[i].beyond)
       /\ Clause("a galaxy is counted more than once in total", J("C08") /\ S1.masking =>
                 \A g \in DOMAIN taken : Known(g) => FoldSet(LAMBDA x, a : a + x.p * x.free, 0, {y \in gave : y.gal = g}) <= 64 * 64)
  /\ Advance /\ UNCHANGED <<pvars, fuzzy, ids>>
TNext == TSetup \/ TCluster \/ TOutput
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
