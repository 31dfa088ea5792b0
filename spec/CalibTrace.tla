------------------------------ MODULE CalibTrace ------------------------------
(* Judges recorded calibrations: every step executed, its inputs and settings, *)
(* every file written, the stops, and the products at the end.                 *)
EXTENDS TraceKit, Calib
VARIABLE h0
S1 == Traces[t].steps[1]
N == S1.n
TInit == KitInit /\ h0 = {} /\ (IF S1.op = "setup" THEN Setup(Plan(S1.n, S1.full)) ELSE Setup(<<>>))
TSetup == IsEvent("setup") /\ Advance /\ UNCHANGED <<cvars, h0>>
TStart == IsEvent("start") /\ at = 0 /\ at' = 1 /\ wrote' = -1 /\ began' = {} /\ h0' = have /\ UNCHANGED <<plan, have>> /\ Advance

P(f, v) == {<<f, v>>}
Region == P("region", "calibration")
Common(i) == P("parfile", It(i) \o "pars") \cup P("zredfile", It(i) \o "zreds_master_table") \cup P("bkgfile", It(i) \o "bkg")
             \cup P("galfile", "galfile") \cup Region \cup P("check", "True") \cup P("cleaninput", "True") \cup P("consolidate", "True")
RunMode(spec, perc, like, kz) == P("specmode", spec) \cup P("percolation_only", perc) \cup P("consolidate_like", like) \cup P("keepz", kz)
(* The inputs and settings of a step, the same in every run *)
Inputs(s) ==
  LET i == s.it IN
  CASE s.name = "redgals" -> Region
    [] s.name = "bkgcolor" -> Region
    [] s.name = "maskgals" -> {}
    [] s.name = "colormem" -> P("redgalfile", "zspec_redgals") \cup P("redgalmodelfile", "zspec_redgals_model") \cup P("bkgfile_color", "bkg_color")
                              \cup P("maskgalfile", "maskgals") \cup Region
    [] s.name = "seedstrain" -> Region
    [] s.name = "seedsfull" -> Region \cup P("zredfile", It(N) \o "zreds_master_table")
    [] s.name = "pars" -> P("bkgfile_color", "bkg_color") \cup P("zmem", Zmem(i - 1))
    [] s.name = "zreds" -> P("parfile", It(i) \o "pars") \cup P("galfile", "galfile") \cup Region
    [] s.name = "bkg" -> P("parfile", It(i) \o "pars") \cup P("galfile", "galfile") \cup Region \cup P("deepmode", "False")
    [] s.name = "zbkg" -> P("parfile", It(i) \o "pars") \cup P("zredfile", It(i) \o "zreds_master_table") \cup P("galfile", "galfile") \cup Region
    [] s.name = "seedzreds" -> P("parfile", It(i) \o "pars") \cup P("seeds", IF s.outs[2] = B(N) \o "specseeds" THEN "specseeds" ELSE SeedSource(i))
    [] s.name = "run:" \o It(i) \o "final" ->
         Common(i) \cup RunMode("True", "False", "True", "True") \cup P("zlambdafile", "None") \cup P("wcen", ToString(i - 1))
         \cup P("centerclass", IF i = 1 THEN S1.first ELSE "CenteringWcenZred") \cup P("input", It(i) \o "specseeds")
    [] s.name = "run:" \o It(i) \o "rand_final" ->
         Common(i) \cup RunMode("False", "True", "False", "True") \cup P("zlambdafile", "None") \cup P("wcen", ToString(i - 1))
         \cup P("centerclass", "CenteringRandom") \cup P("input", It(i) \o "sub_like")
    [] s.name = "run:" \o It(i) \o "randsat_final" ->
         Common(i) \cup RunMode("False", "True", "False", "True") \cup P("zlambdafile", "None") \cup P("wcen", ToString(i - 1))
         \cup P("centerclass", "CenteringRandomSatellite") \cup P("input", It(i) \o "sub_like")
    [] s.name = "run:" \o B(N) \o "final" ->
         Common(i) \cup RunMode("False", "False", "False", "False") \cup P("zlambdafile", It(i) \o "zlambda") \cup P("wcen", ToString(i))
         \cup P("centerclass", S1.center) \cup P("input", B(N) \o "specseeds")
    [] s.name = "wcen" -> P("parfile", It(i) \o "pars") \cup P("bkgfile", It(i) \o "bkg") \cup P("catfile", It(i) \o "final") \cup P("it", ToString(i))
                          \cup P("wcen", ToString(i - 1))
                          \cup P("rand", IF i = 1 THEN It(i) \o "rand_final" ELSE "None") \cup P("randsat", IF i = 1 THEN It(i) \o "randsat_final" ELSE "None")
    [] s.name = "zlambda" -> P("catfile", It(i) \o "final") \cup P("corrslope", "False")
    [] s.name = "plot" -> P("rows", "all") \cup (IF s.outs[1] = B(N) \o "zspec" THEN P("catfile", B(N) \o "final") \cup P("values", "plain")
                                                 ELSE P("catfile", It(i) \o "final") \cup P("values", It(i) \o "zlambda"))
    [] s.name = "zmem" -> P("catfile", It(i) \o "final") \cup P("mode", "z_init")
    [] s.name = "fullbkg" -> P("parfile", It(N) \o "pars") \cup P("galfile", "galfile") \cup P("region", "whole") \cup P("deepmode", "True")
    [] OTHER -> {}
PairSet(x) == {<<x[j][1], x[j][2]>> : j \in 1..Len(x)}
Match == {k \in 1..Len(plan) : plan[k].name = Ev.name /\ \A j \in 1..Len(Ev.outs) : Ev.outs[j] \in OutSet(plan[k])}

TStep ==
  /\ IsEvent("step")
  /\ IF Match = {} THEN Clause("a step outside the plan, or writing to another step's files", FALSE) /\ UNCHANGED began
     ELSE LET k == CHOOSE x \in Match : TRUE IN
          /\ Clause("a step was repeated although its outputs exist", k \in Owed(plan, have))
          /\ Clause("a step was executed twice in one run", k \notin began)
          /\ Clause("a step was executed before its inputs exist", plan[k].reads \subseteq have)
          /\ Clause("a step was given other inputs or settings than in an uninterrupted calibration", PairSet(Ev.ins) = Inputs(plan[k]))
          /\ began' = began \cup {k}
  /\ UNCHANGED <<plan, have, at, wrote, h0>> /\ Advance
Silent == {"sublike", "cutseeds", "config"}
Owner == {k \in 1..Len(plan) : Ev.tok \in OutSet(plan[k])}
TWrote ==
  /\ IsEvent("wrote")
  /\ IF Owner = {} THEN Clause("a file outside the plan was written", FALSE) /\ UNCHANGED began
     ELSE LET k == CHOOSE x \in Owner : TRUE IN
          IF plan[k].name \in Silent
          THEN /\ Clause("a sub-catalogue was remade although it exists", k \in Owed(plan, have))
               /\ Clause("a sub-catalogue was made before its inputs exist", plan[k].reads \subseteq have)
               /\ began' = began \cup {k}
          ELSE Clause("a file was written without its step", k \in began) /\ UNCHANGED began
  /\ have' = have \cup {Ev.tok}
  /\ UNCHANGED <<plan, at, wrote, h0>> /\ Advance
TEnd ==
  /\ IsEvent("end")
  /\ LET obs == {Ev.files[j] : j \in 1..Len(Ev.files)} IN
     /\ Clause("the files differ from those written", obs = have)
     /\ Clause("calibration failed", Ev.crashed \/ Ev.res = "ok")
     /\ Clause("a step was left out", Ev.crashed \/ began = Owed(plan, h0))
     /\ Clause("products are missing", Ev.crashed \/ obs = AllOuts(plan))
     /\ Clause("a step ran that was not owed", began \subseteq Owed(plan, h0))
     /\ have' = obs
  /\ at' = 0 /\ UNCHANGED <<plan, wrote, began, h0>> /\ Advance

RowsOf(x, src, it) == x = [j \in 1..Len(src) |-> <<src[j], src[j] * 10 + it, src[j] * 10 + it + 1000, src[j] * 10 + it + 2000>>]
SetOf(x) == {x[j] : j \in 1..Len(x)}
Rich == {Ev.final[j][1] : j \in {q \in 1..Len(Ev.final) : Ev.final[q][2] > Ev.minlam}}
TContents ==
  /\ IsEvent("contents")
  /\ IF ~Ev.readable THEN Clause("a catalogue made by the driver cannot be read", FALSE)
     ELSE /\ Clause("first iteration seeds differ from the training seeds with new redshifts", RowsOf(Ev.seeds[1], Ev.train, 1))
          /\ Clause("later iteration seeds differ from the cut seeds with new redshifts",
                    \A i \in 2..N : RowsOf(Ev.seeds[i], Ev.cut, i))
          /\ Clause("final iteration seeds differ from the full seeds with new redshifts", RowsOf(Ev.seedsb, Ev.full, N))
          /\ Clause("cut seeds are not exactly the seeds of rich clusters", Distinct(Ev.cut) /\ SetOf(Ev.cut) = SetOf(Ev.train) \cap Rich)
          /\ Clause("likelihood subset is not exactly the rich clusters", Distinct(Ev.sub) /\ SetOf(Ev.sub) = SetOf(Ev.like) \cap Rich)
  /\ UNCHANGED <<cvars, h0>> /\ Advance

ConfigPairs ==
  P("parfile", It(N) \o "pars") \cup P("zlambdafile", It(N) \o "zlambda") \cup P("wcenfile", It(N) \o "wcen")
  \cup P("bkgfile", IF S1.full THEN "run_bkg" ELSE It(N) \o "bkg")
  \cup P("zredfile", IF S1.region THEN "run_zreds_master_table" ELSE It(N) \o "zreds_master_table")
  \cup P("bkgfile_color", "bkg_color") \cup P("maskgalfile", "maskgals") \cup P("redgalfile", "zspec_redgals") \cup P("redgalmodelfile", "zspec_redgals_model")
  \cup P("catfile", "None") \cup P("seedfile", "None") \cup P("zmemfile", "None") \cup P("galfile", "galfile") \cup P("specfile", "specfile")
  \cup P("nside", "0") \cup P("hpix", "0") \cup P("centerclass", S1.center) \cup P("border", "0.000") \cup P("outbase", "run") \cup P("area", "None")
  \cup P("firstpass_centerclass", S1.first) \cup P("wcen", ToString(N))
TConfig ==
  /\ IsEvent("config")
  /\ Clause("the run configuration is missing, has relative paths or changed other settings", Ev.ok)
  /\ Clause("the run configuration does not name the products of the last iteration", Ev.ok => PairSet(Ev.ins) = ConfigPairs)
  /\ UNCHANGED <<cvars, h0>> /\ Advance
(* a product of several pieces is only there when it is complete *)
TProduct ==
  /\ IsEvent("product")
  /\ Clause("a product under its own name is incomplete", Ev.present => Ev.complete)
  /\ Clause("a product was not made", Ev.ended => Ev.res = "ok" /\ Ev.present)
  /\ UNCHANGED <<cvars, h0>> /\ Advance
TNext == TProduct \/ TSetup \/ TStart \/ TStep \/ TWrote \/ TEnd \/ TContents \/ TConfig
TSpec == TInit /\ [][TNext]_<<cvars, h0, t, l>>
===============================================================================
