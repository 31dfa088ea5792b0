------------------------------- MODULE RedmagicTrace ------------------------------
EXTENDS TraceKit, Redmagic
VARIABLE st
TInit == KitInit /\ st = 0
TCalib == /\ IsEvent("calib") /\ Advance /\ UNCHANGED st
          /\ Clause("reading the calibration failed", Ev.res = "ok")
          /\ Clause("modes are not those calibrated", Ev.res = "ok" => Ev.names = Ev.want)
TSelect == /\ IsEvent("select") /\ Advance /\ UNCHANGED st
           /\ Clause("selecting failed", Ev.res = "ok")
           /\ Ev.res = "ok" =>
              LET G == Ev.g
                  O == Ev.got
                  p == Ev.p
                  have == {O[k].k : k \in 1..Len(O)}
                  must == {j \in 1..Len(G) : ~G[j].edge /\ Selected(G[j], p)}
                  may == {j \in 1..Len(G) : G[j].edge \/ Selected(G[j], p)}
                  of(o) == G[o.k]
              IN /\ Clause("a galaxy satisfying the cuts was not selected", must \subseteq have)
                 /\ Clause("a galaxy outside the cuts was selected", have \subseteq may)
                 /\ Clause("a galaxy was selected twice", Cardinality(have) = Len(O))
                 /\ 0 \notin have =>
                    /\ Clause("selected galaxies are not in input order", Ev.order => \A a \in 1..(Len(O) - 1) : O[a].k < O[a + 1].k)
                    /\ Clause("returned indices are of other galaxies", Ev.idx)
                    /\ Clause("a selected galaxy was changed", \A k \in 1..Len(O) : O[k].ok)
                    /\ Clause("the input was changed", Ev.kept)
                    /\ Clause("the redshift is not corrected by the bias", \A k \in 1..Len(O) : Abs(O[k].z - ZCorr(of(O[k]), p)) <= 2)
                    /\ Clause("the redshift error is not scaled by its ratio", \A k \in 1..Len(O) : Abs(O[k].e * 10000 - ErrCorr(of(O[k]), p)) <= 20000)
                    /\ Clause("redshift samples are not shifted as calibrated", ~Ev.nosamp => \A k \in 1..Len(O) : LET g == of(O[k]) IN
                                 Len(O[k].samp) = Len(g.samp) /\ \A j \in 1..Len(g.samp) : Abs(O[k].samp[j] - (g.samp[j] - Shift(g, p))) <= 2)
                    /\ Clause("luminosity is not that at the corrected redshift", \A k \in 1..Len(O) : LET g == of(O[k]) IN Abs(O[k].lum - g.l1) <= 2 + (g.l1 \div 500))
                    /\ Clause("spectroscopic redshift is of another galaxy", \A k \in 1..Len(O) : LET g == of(O[k]) IN
                                 IF Ev.how >= 2 THEN O[k].zspec = g.zs ELSE O[k].zspec \in Spec1(g))
TNoMode == IsEvent("nomode") /\ Advance /\ UNCHANGED st /\ Clause("a mode that was not calibrated was accepted", Ev.res # "ok")
TAgain == /\ IsEvent("again") /\ Advance /\ UNCHANGED st
          /\ Clause("existing output was overwritten unasked", Ev.res # "ok" /\ Ev.same)
TReplaced == IsEvent("replaced") /\ Advance /\ UNCHANGED st /\ Clause("existing output was not replaced when asked", Ev.res = "ok" /\ Ev.n = Ev.want)
TUnasked == IsEvent("unasked") /\ Advance /\ UNCHANGED st /\ Clause("a mode that was not asked for was run", Ev.none)
(* whole part of the square root *)
RECURSIVE Root(_, _)
Root(x, k) == IF (k + 1) * (k + 1) > x THEN k ELSE Root(x, k + 1)
TRand == /\ IsEvent("rand") /\ Advance /\ UNCHANGED st
         /\ Clause("no randoms were made", Ev.fixed \/ Ev.n = 0 \/ Ev.file)
         /\ Clause("randoms without a footprint", Ev.fixed => ~Ev.file)
         /\ Ev.file => LET R == Ev.rows IN
            /\ Clause("not the requested number of randoms", Len(R) = Ev.n)
            /\ Clause("a random is outside the footprint", \A k \in 1..Len(R) : R[k].f > 0)
            /\ Clause("a random is beyond the maximum redshift of its position", \A k \in 1..Len(R) : R[k].z < R[k].zmax)
            /\ Clause("a random's redshift is of no galaxy", \A k \in 1..Len(R) : R[k].one)
            /\ Clause("weights of randoms are not one", Ev.w)
            /\ Clause("randoms are not spread as the sky is covered", \A k \in 1..Len(Ev.dens) : LET D == Ev.dens[k]
                          W == D[1].f * D[1].pix + D[2].f * D[2].pix + D[3].f * D[3].pix
                          N == D[1].n + D[2].n + D[3].n
                      IN \A i \in 1..3 : LET want == (N * D[i].f * D[i].pix) \div W IN Abs(D[i].n - want) <= 6 * Root(want, 0) + 10)
TNext == TCalib \/ TSelect \/ TNoMode \/ TAgain \/ TReplaced \/ TUnasked \/ TRand
TSpec == TInit /\ [][TNext]_<<st, t, l>>
===================================================================================
