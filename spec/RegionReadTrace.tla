---------------------------- MODULE RegionReadTrace ----------------------------
EXTENDS TraceKit, RegionRead
VARIABLE sky
S1 == Traces[t].steps[1]
TInit == KitInit /\ sky = {}
TOpen == IsEvent("sky") /\ sky' = {} /\ Advance
(* the galaxies with their distance to this request's region come with the read *)
Ret == {g \in ToSet(Ev.gals) : g.gid \in ToSet(Ev.ret)}
TRead == /\ IsEvent("read") /\ Advance /\ UNCHANGED sky
         /\ LET S == ToSet(Ev.gals)
                must == {g \in S : Must(g, Ev.q)}
            IN IF Ev.refuse
               THEN Clause("a request that cannot be served was not refused", Ev.res # "ok")
               ELSE /\ Clause("reading failed", Ev.res = "ok" \/ must = {})
                    /\ Ev.res = "ok" =>
                       /\ Clause("galaxies of the region are missing", must \subseteq Ret)
                       /\ Clause("galaxies from outside the region or the cuts", Ret \subseteq {g \in S : May(g, Ev.q)})
                       /\ Clause("a galaxy is returned twice", Distinct(Ev.ret))
                       /\ Clause("unknown galaxies returned", Cardinality(Ret) = Len(Ev.ret) \/ ~Distinct(Ev.ret))
                       /\ Clause("galaxy values changed", Ev.same)
                       /\ Clause("a galaxy is paired with another galaxy's redshift", Ev.zsame)
                       /\ Clause("the two ways of reading differ", Ev.agree)
(* redshift files against galaxy files (C05): rows[i] is the set of galaxies    *)
(* whose result computed alone equals row i                                     *)
TZred == /\ IsEvent("zred") /\ Advance /\ UNCHANGED sky
         /\ Clause("the redshift run failed", Ev.res = "ok")
         /\ Ev.res = "ok" =>
            /\ Clause("not one redshift row per galaxy", \A i \in 1..Len(Ev.files) : Len(Ev.files[i].rows) = Len(Ev.files[i].gids))
            /\ Clause("a redshift row is not its galaxy's result",
                      \A i \in 1..Len(Ev.files) : LET f == Ev.files[i] IN
                        \A k \in 1..MinOf(Len(f.rows), Len(f.gids)) : f.gids[k] \in ToSet(f.rows[k]))
            /\ Clause("wrong set of redshift files", ToSet(Ev.have) = ToSet(Ev.want))
            /\ Clause("redshift table does not match the galaxy table", Ev.tableok)
TNext == TOpen \/ TRead \/ TZred
TSpec == TInit /\ [][TNext]_<<sky, t, l>>
===============================================================================
