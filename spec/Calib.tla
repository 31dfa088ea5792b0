-------------------------------- MODULE Calib --------------------------------
(* The calibration driver (C16): a plan of steps, each reading files made by  *)
(* earlier steps and writing its own, in the order given.  Starting looks at  *)
(* every step in turn: it is skipped when all its files exist, otherwise it   *)
(* is executed and writes them.  A stop ends the process between two actions; *)
(* a rerun begins again at the first step.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

It(i) == "iter" \o ToString(i) \o "_"
Step(nm, i, rd, ou, al) == [name |-> nm, it |-> i, reads |-> rd, outs |-> ou, always |-> al]

Prep == << Step("redgals", 0, {}, <<"zspec_redgals", "zspec_redgals_model">>, FALSE),
           Step("bkgcolor", 0, {}, <<"bkg_color">>, FALSE),
           Step("maskgals", 0, {}, <<"maskgals">>, FALSE),
           Step("colormem", 0, {"zspec_redgals", "zspec_redgals_model", "bkg_color", "maskgals"}, <<"iter0_colormem">>, FALSE),
           Step("seedstrain", 0, {}, <<"specseeds_train">>, FALSE) >>

Zmem(i) == IF i = 0 THEN "iter0_colormem" ELSE It(i) \o "zmem"
SeedSource(i) == IF i = 1 THEN "specseeds_train" ELSE "cut_specseeds"
RunReads(i) == {It(i) \o "pars", It(i) \o "zreds_master_table", It(i) \o "bkg:chisq", It(i) \o "bkg:zred", "maskgals"}

Iteration(i) ==
  << Step("pars", i, {Zmem(i - 1), "bkg_color"}, <<It(i) \o "pars">>, FALSE),
     Step("zreds", i, {It(i) \o "pars"}, <<It(i) \o "zreds_master_table">>, FALSE),
     Step("bkg", i, {It(i) \o "pars"}, <<It(i) \o "bkg:chisq">>, FALSE),
     Step("zbkg", i, {It(i) \o "pars", It(i) \o "zreds_master_table"}, <<It(i) \o "bkg:zred">>, FALSE),
     Step("seedzreds", i, {It(i) \o "pars", SeedSource(i)}, <<It(i) \o "specseeds_zreds", It(i) \o "specseeds">>, FALSE),
     Step("run:" \o It(i) \o "final", i, RunReads(i) \cup {It(i) \o "specseeds"} \cup (IF i > 1 THEN {It(i - 1) \o "wcen"} ELSE {}),
          <<It(i) \o "like", It(i) \o "final_members", It(i) \o "final">>, FALSE) >>
  \o (IF i = 1 THEN
       << Step("sublike", i, {It(i) \o "like", It(i) \o "final"}, <<It(i) \o "sub_like">>, FALSE),
          Step("run:" \o It(i) \o "rand_final", i, RunReads(i) \cup {It(i) \o "sub_like"}, <<It(i) \o "rand_final_members", It(i) \o "rand_final">>, FALSE),
          Step("run:" \o It(i) \o "randsat_final", i, RunReads(i) \cup {It(i) \o "sub_like"},
               <<It(i) \o "randsat_final_members", It(i) \o "randsat_final">>, FALSE) >> ELSE <<>>)
  \o << Step("wcen", i, {It(i) \o "pars", It(i) \o "bkg:chisq", It(i) \o "final"}
                        \cup (IF i = 1 THEN {It(i) \o "rand_final", It(i) \o "randsat_final"} ELSE {It(i - 1) \o "wcen"}), <<It(i) \o "wcen">>, FALSE),
        Step("zlambda", i, {It(i) \o "final"}, <<It(i) \o "zlambda">>, FALSE),
        Step("plot", i, {It(i) \o "final", It(i) \o "zlambda"}, <<It(i) \o "zspec">>, FALSE),
        Step("zmem", i, {It(i) \o "final", It(i) \o "final_members"}, <<Zmem(i)>>, FALSE) >>
  \o (IF i = 1 THEN << Step("cutseeds", i, {"specseeds_train", It(i) \o "final"}, <<"cut_specseeds">>, FALSE) >> ELSE <<>>)

B(n) == "iter" \o ToString(n) \o "b_"
Final(n, full) ==
  << Step("seedsfull", n, {It(n) \o "zreds_master_table"}, <<"specseeds">>, FALSE),
     Step("seedzreds", n, {It(n) \o "pars", "specseeds"}, <<B(n) \o "specseeds_zreds", B(n) \o "specseeds">>, FALSE),
     Step("run:" \o B(n) \o "final", n, RunReads(n) \cup {B(n) \o "specseeds", It(n) \o "zlambda", It(n) \o "wcen"},
          <<B(n) \o "final_members", B(n) \o "final">>, FALSE),
     Step("plot", n, {B(n) \o "final"}, <<B(n) \o "zspec">>, FALSE),
     Step("config", n, {It(n) \o "pars", It(n) \o "zlambda", It(n) \o "wcen", "bkg_color", "maskgals"}, <<"run_default">>, TRUE) >>
  \o (IF full THEN << Step("fullbkg", n, {It(n) \o "pars"}, <<"run_bkg:chisq">>, FALSE) >> ELSE <<>>)

RECURSIVE Iterations(_)
Iterations(n) == IF n = 0 THEN <<>> ELSE Iterations(n - 1) \o Iteration(n)
Plan(n, full) == Prep \o Iterations(n) \o Final(n, full)

OutSet(s) == {s.outs[j] : j \in 1..Len(s.outs)}
AllOuts(plan) == UNION {OutSet(plan[k]) : k \in 1..Len(plan)}

VARIABLES plan,   \* the steps
          have,   \* files on disk
          at,     \* index of the step being looked at; 0 not running
          wrote,  \* number of files the executed step has written; -1 not executing
          began   \* steps executed in this run
cvars == <<plan, have, at, wrote, began>>

Setup(p) == plan = p /\ have = {} /\ at = 0 /\ wrote = -1 /\ began = {}
Start == at = 0 /\ at' = 1 /\ wrote' = -1 /\ began' = {} /\ UNCHANGED <<plan, have>>
Present(k, h) == OutSet(plan[k]) \subseteq h
Skip == /\ at \in 1..Len(plan) /\ wrote = -1 /\ ~plan[at].always /\ Present(at, have)
        /\ at' = at + 1 /\ UNCHANGED <<plan, have, wrote, began>>
Execute == /\ at \in 1..Len(plan) /\ wrote = -1 /\ (plan[at].always \/ ~Present(at, have))
           /\ wrote' = 0 /\ began' = began \cup {at} /\ UNCHANGED <<plan, have, at>>
Write == /\ at \in 1..Len(plan) /\ wrote \in 0..(Len(plan[at].outs) - 1)
         /\ have' = have \cup {plan[at].outs[wrote + 1]}
         /\ IF wrote + 1 = Len(plan[at].outs) THEN wrote' = -1 /\ at' = at + 1 ELSE wrote' = wrote + 1 /\ UNCHANGED at
         /\ UNCHANGED <<plan, began>>
Stop == at > 0 /\ at <= Len(plan) /\ at' = 0 /\ wrote' = -1 /\ UNCHANGED <<plan, have, began>>
Finish == at = Len(plan) + 1 /\ at' = 0 /\ UNCHANGED <<plan, have, wrote, began>>

(* the last file of a step is written last, so it stands for all of them *)
LastMeansAll == \A k \in 1..Len(plan) : plan[k].outs[Len(plan[k].outs)] \in have => Present(k, have)
(* what a step reads is there when it is executed *)
InputsThere == wrote >= 0 => plan[at].reads \subseteq have
(* each file belongs to one step, and is read only by later steps *)
WellFormed == /\ \A j, k \in 1..Len(plan) : j # k => OutSet(plan[j]) \cap OutSet(plan[k]) = {}
              /\ \A k \in 1..Len(plan) : plan[k].reads \subseteq UNION {OutSet(plan[j]) : j \in 1..(k - 1)}
(* what a run started with files h must execute *)
Owed(p, h) == {k \in 1..Len(p) : p[k].always \/ ~(OutSet(p[k]) \subseteq h)}
==============================================================================
