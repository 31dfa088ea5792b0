---------------------------- MODULE ConsolidateMC ----------------------------
(* Exhaustive check of the design over all contents of three pixel files     *)
(* read in every order.                                                      *)
EXTENDS Consolidate, TLC
VARIABLE todo, files

C(g, inp, lam, like, z) == [gid |-> g, inpix |-> inp, lam |-> lam, scale |-> 4, mask |-> 0, z |-> z, like |-> like,
                            zmax |-> <<2, 4>>, mem |-> <<>>]
Choices(g) == {<<>>} \cup {<<C(g, inp, lam, like, z)>> : inp \in BOOLEAN, lam \in {1, 9, 21}, like \in {1, 2}, z \in {1, 3}}
Files == {1, 2, 3}
MCInit == /\ Setup([cuts |-> <<8, 20>>, nvl |-> 2, scale |-> FALSE, minlam |-> 4, maxmask |-> 1])
          /\ todo = Files
          /\ files \in {f \in [Files -> UNION {Choices(g) : g \in Files}] : \A g \in Files : f[g] \in Choices(g)}
MCNext == \/ \E f \in todo : ReadFile(files[f]) /\ todo' = todo \ {f} /\ UNCHANGED files
          \/ todo = {} /\ Finish /\ UNCHANGED <<todo, files>>
          \/ phase = "done" /\ UNCHANGED <<vars, todo, files>>
MCSpec == MCInit /\ [][MCNext]_<<vars, todo, files>>

(* independence of reading order: the result is a function of the files only *)
OrderFree == phase = "done" =>
   \A p \in DOMAIN out : GidSet(out[p]) =
      {g \in Files : files[g] # <<>> /\ Good(files[g][1], par.minlam, par.maxmask)
                     /\ PassesRichness(files[g][1], par.cuts[p[1]], par.scale) /\ PassesVlim(files[g][1], p[2])}
==============================================================================
