-------------------------------- MODULE MapsTrace --------------------------------
EXTENDS TraceKit, Maps
VARIABLE maps
TInit == KitInit /\ maps = 0
Near(a, b) == Abs(a - b) <= 1
TConvert == /\ IsEvent("convert") /\ Advance /\ maps' = 1
            /\ Clause("conversion of an old map failed", Ev.res = "ok" /\ Ev.res2 = "ok")
            /\ (Ev.res = "ok" /\ Ev.res2 = "ok") =>
               /\ Clause("converted footprint differs", Len(Ev.mask) = Len(Ev.want)
                         /\ \A i \in 1..Len(Ev.want) : Ev.mask[i].p = Ev.want[i].p /\ Ev.mask[i].f = Ev.want[i].f)
               /\ Clause("converted depth map differs", Len(Ev.depth) = Len(Ev.want)
                         /\ \A i \in 1..Len(Ev.want) :
                              LET a == Ev.depth[i]  b == Ev.want[i]
                              IN a.p = b.p /\ a.f = b.f /\ Near(a.d, b.d) /\ Near(a.e, b.d) /\ Near(a.m, b.d))
               /\ Clause("converted map has another resolution", Ev.covok)
               /\ Clause("converted depth map has another zero point, significance or mode", Ev.hdrok)
(* one position: truth f (quarters, -1 outside), d; answer a                       *)
Right(p, a) == /\ MaskAllowed(p.f, a.mask)
               /\ IF p.f >= 0
                  THEN Near(a.lim, p.d) /\ Near(a.exp, p.d) /\ Near(a.m50, p.d) /\ a.frac = p.f /\ Near(a.zmax, p.z) /\ a.vfrac = p.f
                  ELSE a.lim = -1 /\ a.exp = -1 /\ a.m50 = -1 /\ a.frac <= 0 /\ a.zmax <= 0 /\ a.vfrac <= 0
IsOutside(a) == ~a.mask /\ a.lim = -1 /\ a.exp = -1 /\ a.m50 = -1 /\ a.frac <= 0 /\ a.zmax <= 0 /\ a.vfrac <= 0
TRead == /\ IsEvent("read") /\ Advance /\ UNCHANGED maps
         /\ Clause("a map could not be read whole", Ev.whole = <<"ok", "ok", "ok">>)
         /\ Clause("a map could not be read for a region", Ev.region = <<"ok", "ok", "ok">>)
         /\ Clause("asking a map for values failed", Ev.ok)
         /\ LET N == 1..Len(Ev.pos)
            IN /\ Clause("a position outside the footprint is not masked", \A i \in N : Ev.pos[i].f <= 0 => ~Ev.pos[i].w.mask /\ ~Ev.pos[i].r.mask)
               /\ Clause("the whole map gives a wrong value", \A i \in N : Right(Ev.pos[i], Ev.pos[i].w))
               /\ Clause("the region's map gives another value within the region", \A i \in N : Ev.pos[i].must => Right(Ev.pos[i], Ev.pos[i].r))
               /\ Clause("the region's map gives a wrong value beyond the region", \A i \in N : ~Ev.pos[i].must => Right(Ev.pos[i], Ev.pos[i].r) \/ IsOutside(Ev.pos[i].r))
(* a partly covered pixel is in the footprint with its fraction (5 sigma)          *)
TFraction == /\ IsEvent("fraction") /\ Advance /\ UNCHANGED maps
             /\ Clause("the footprint at many positions failed", Ev.res = "ok")
             /\ Ev.res = "ok" => LET x == 4 * Ev.got - Ev.n * Ev.q
                                 IN Clause("a partly covered pixel is masked with another probability", Abs(x) <= 40000 /\ x * x <= 25 * Ev.n * Ev.q * (4 - Ev.q))
TMaskgals == /\ IsEvent("maskgals") /\ Advance /\ UNCHANGED maps
             /\ Clause("mask galaxies of a cluster failed", Ev.ok)
             /\ LET good == SelectSeq(Ev.gals, LAMBDA g : g.f >= 0)
                    ds == [i \in 1..Len(good) |-> good[i].d]
                    n == Len(good)
                    N == 1..Len(Ev.gals)
                    OK(m) == /\ Clause("mask galaxies outside the footprint are not marked", \A i \in N : MaskAllowed(Ev.gals[i].f, m.mark[i]))
                             /\ Clause("depth of a mask galaxy differs", \A i \in N : Ev.gals[i].f >= 0 => Near(m.lim[i], Ev.gals[i].d) /\ Near(m.exp[i], Ev.gals[i].d) /\ Near(m.m50[i], Ev.gals[i].d + 500))
                             /\ Clause("mask galaxies without depth are filled wrongly",
                                       \A i \in N : Ev.gals[i].f < 0 =>
                                         IF n = 0 THEN m.lim[i] = 1000 /\ m.exp[i] = 500000 /\ m.m50[i] = 0
                                         ELSE /\ Abs(2 * m.lim[i] - Fill2(ds)) <= 3 /\ Abs(2 * m.exp[i] - Fill2(ds)) <= 3
                                              /\ Abs(2 * (m.m50[i] - 500) - Fill2(ds)) <= 3)
                             /\ Clause("zero point or significance differ", m.zp = Ev.zp /\ m.nsig = Ev.nsig)
                IN \A k \in 1..Len(Ev.modes) : (k = 1 \/ Ev.see) => OK(Ev.modes[k])
             /\ Clause("mask galaxies depend on how the map was read", (Ev.see /\ Len(Ev.modes) = 2) => Ev.modes[1] = Ev.modes[2])
(* area deeper than a magnitude, in 1/400 pixel; want counts whole quarters        *)
AreaClauses(tol, name) == /\ Clause("areas failed", Ev.res = "ok")
                          /\ Clause(name, \A i \in 1..Len(Ev.rows) : Abs(Ev.rows[i].got - Ev.rows[i].want) <= tol)
TDepthAreas == IsEvent("depthareas") /\ Advance /\ UNCHANGED maps /\ AreaClauses(802, "area deeper than a magnitude differs")
(* Known finding: the areas are summed over the pixels of the shallow end (in order *)
(* of depth) instead of the deep end; anything else that differs is reported.       *)
ShallowSum(k) == LET ind == MinOf(MaxOf(Ev.n - k - 1, 1), Ev.n - 1)
                 IN 100 * SumSeq(SubSeq(Ev.fracs, 1, Ev.n - ind + 1))
TDepthAreas2 == /\ IsEvent("depthareas2") /\ Advance /\ UNCHANGED maps
                /\ Clause("areas failed", Ev.res = "ok")
                /\ LET wrong == {i \in 1..Len(Ev.rows) : Abs(Ev.rows[i].got - Ev.rows[i].want) > 802}
                   IN /\ Clause("area deeper than a magnitude differs", \A i \in wrong : Abs(Ev.rows[i].got - ShallowSum(Ev.rows[i].npix)) <= 2)
                      /\ Clause("area deeper than a magnitude is that of the shallow pixels", wrong = {})
                /\ Clause("areas increase with magnitude", \A i \in 2..Len(Ev.rows) : Ev.rows[i].got <= Ev.rows[i - 1].got + 2)
TVlimAreas == IsEvent("vlimareas") /\ Advance /\ UNCHANGED maps /\ AreaClauses(2 , "area below a maximum redshift differs")
TGeometry == /\ IsEvent("geometry") /\ Advance /\ UNCHANGED maps
             /\ Clause("volume limit of the footprint failed", Ev.res = "ok")
             /\ Ev.res = "ok" => Clause("volume limit of the footprint differs from it", Ev.ok)
TSeveral == /\ IsEvent("severalborder") /\ Advance /\ UNCHANGED maps
            /\ Clause("several pixels with a border neither refused nor right", \A i \in 1..Len(Ev.rows) : Ev.rows[i].res # "ok" \/ Ev.rows[i].right)
TNext == TGeometry \/ TSeveral \/ TConvert \/ TRead \/ TFraction \/ TMaskgals \/ TDepthAreas \/ TDepthAreas2 \/ TVlimAreas
TSpec == TInit /\ [][TNext]_<<maps, t, l>>
==================================================================================
