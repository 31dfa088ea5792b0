------------------------------- MODULE RandomsTrace -------------------------------
EXTENDS TraceKit, Randoms
VARIABLE D      \* the draws being weighted
TInit == KitInit /\ D = [rows |-> <<>>]
TGenerate == /\ IsEvent("generate") /\ Advance /\ UNCHANGED D
             /\ Clause("generating randoms failed", Ev.res = "ok")
             /\ Ev.res = "ok" =>
                LET R == Ev.rows
                    C == ToSet(Ev.cl)
                IN /\ Clause("not the requested number of randoms", Len(R) = Ev.n)
                   /\ Clause("ids are not 1 to N", Ids(R) = 1..Len(R) /\ Cardinality(Ids(R)) = Len(R))
                   /\ Clause("a random is outside the footprint", \A i \in 1..Len(R) : InFootprint(R[i]))
                   /\ Clause("a random is beyond the maximum redshift of its position", \A i \in 1..Len(R) : InVolume(R[i]))
                   /\ Clause("a random's richness, redshift and source are not of one cluster", \A i \in 1..Len(R) : FromOne(R[i], C))
                   /\ Clause("randoms read by region differ", Ev.regok)
                   (* five sigma *)
                   /\ Ev.want4 > 0 => LET x == Ev.inpart * Ev.want4 - Ev.n * Ev.part4
                                          y == Abs(x) \div Ev.want4
                                      IN Clause("density of randoms does not follow the coverage", y * y <= ((25 * Ev.n * Ev.part4) \div Ev.want4) + 25)
TSplit == /\ IsEvent("split") /\ Advance /\ UNCHANGED D
          /\ Clause("splitting randoms failed", Ev.res = "ok")
          /\ Clause("splitting randoms changed them", Ev.res = "ok" => Ev.same)
TDraws == IsEvent("draws") /\ Advance /\ D' = Ev /\ Clause("reading the draws failed", Ev.res = "ok")
Q == [ml |-> Ev.ml, l0 |-> Ev.l0, l1 |-> Ev.l1, z0 |-> Ev.z0, z1 |-> Ev.z1]
TWeigh == /\ IsEvent("weigh") /\ Advance /\ UNCHANGED D
          /\ LET C == ToSet(D.cl)
                 inz == {i \in 1..Len(D.rows) : InZ(D.rows[i], Q)}
                 stray == \E i \in inz : ~ \E c \in C : c.id = D.rows[i].src
                 con == Considered(D.rows, C, Q, D.ss)
                 sur == Survivors(D.rows, C, Q, D.ss, D.maxmf)
                 G == {Ev.got[k].i : k \in 1..Len(Ev.got)}
             IN /\ Clause("draws of unknown clusters were weighted", stray => Ev.res # "ok")
                /\ Clause("weighting failed", Ev.res = "ok" \/ stray \/ con = {})
                /\ Ev.res = "ok" /\ ~stray =>
                   /\ Clause("a surviving random is missing", sur \subseteq G)
                   /\ Clause("a random that does not survive the cuts was kept", G \subseteq sur)
                   /\ Clause("a random is kept twice", Cardinality(G) = Len(Ev.got))
                   /\ Clause("weights are not draws per surviving draw of the source",
                             \A k \in 1..Len(Ev.got) : Ev.got[k].i \in sur =>
                               LET w == Weight(Ev.got[k].i, D.rows, C, Q, D.ss, D.maxmf)
                               IN Abs(Ev.got[k].w * w[2] - 10000 * w[1]) <= w[2] + w[1])
                   /\ Clause("a kept random was changed", \A k \in 1..Len(Ev.got) : LET g == Ev.got[k] IN g.i \in 1..Len(D.rows) =>
                               g.ok /\ g.lam = D.rows[g.i].lam /\ g.z = D.rows[g.i].z)
                   /\ Clause("area beyond that of the mask", \A k \in 1..Len(Ev.area) : Ev.area[k] >= 0 /\ Ev.area[k] <= 5000)
                   /\ Clause("a later request replaced the result of an earlier one", Ev.same)
TArea == /\ IsEvent("area") /\ Advance /\ UNCHANGED D
         /\ Clause("weighting failed", Ev.res = "ok")
         /\ Clause("area does not follow the surviving fraction", Ev.res = "ok" => Len(Ev.got) > 0 /\ \A k \in 1..Len(Ev.got) : Abs(Ev.got[k] - 1250 * Ev.q) <= 100)
TBuild == /\ IsEvent("build") /\ Advance /\ UNCHANGED D
          /\ Clause("building the volume limit failed", Ev.res = "ok")
          /\ Ev.res = "ok" => LET R == Ev.rows IN
             /\ Clause("a pixel's maximum redshift is out of range", \A i \in 1..Len(R) : R[i].inmap => R[i].zmax > R[i].lo /\ R[i].zmax <= R[i].hi)
             /\ Clause("a galaxy below the maximum redshift is too faint for the depth", \A i \in 1..Len(R) : R[i].inmap => R[i].seenbelow)
             /\ Clause("the maximum redshift is not the largest possible", \A i \in 1..Len(R) : (R[i].inmap /\ R[i].zmax < R[i].hi) => ~R[i].seenat)
             /\ Clause("a pixel deep enough was left out", \A i \in 1..Len(R) : ~R[i].inmap => ~R[i].seenat)
             /\ Clause("coverage of a pixel changed", \A i \in 1..Len(R) : R[i].inmap => R[i].f = R[i].want)
             /\ Clause("reading the volume limit again differs", Ev.again)
TNext == TGenerate \/ TSplit \/ TDraws \/ TWeigh \/ TArea \/ TBuild
TSpec == TInit /\ [][TNext]_<<D, t, l>>
===================================================================================
