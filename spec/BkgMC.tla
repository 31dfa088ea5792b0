--------------------------------- MODULE BkgMC ---------------------------------
(* All divisions of three galaxies into portions and of two redshifts between  *)
(* two processes, every order of reading, and histories of four runs.          *)
EXTENDS Bkg, TLC
VARIABLES share, runs, old, how
mc == <<bvars, share, runs, old, how>>
Gals == <<1, 2, 3>>
Portions == { <<Gals>>, <<<<1>>, <<2, 3>>>>, <<<<1, 2>>, <<3>>>>, <<<<1>>, <<2>>, <<3>>>>, <<<<3>>, <<>>, <<1, 2>>>>, <<<<2>>, <<1, 3>>>> }
Ws == {"a", "b"}
Zs == {1, 2}
Shares == {s \in [Ws -> SUBSET Zs] : s["a"] \cup s["b"] = Zs /\ s["a"] \cap s["b"] = {}}
Rf == [x \in {"C", "Z"} |-> 0]
MCInit == /\ \E p \in Portions : BInit(Ws, p, Zs)
          /\ share \in Shares /\ runs = 0 /\ old = Rf /\ how = <<"-", FALSE>>
MCNext == \/ (\E w \in Ws : Read(w)) /\ UNCHANGED <<share, runs, old, how>>
          \/ table[1] = <<>> /\ Merge(share) /\ UNCHANGED <<share, runs, old, how>>
          \/ /\ table[1] # <<>> /\ runs < 4 /\ runs' = runs + 1 /\ old' = file
             /\ \E k \in {"C", "Z"}, c \in BOOLEAN : RunFile(k, c, runs + 1) /\ how' = <<k, c>>
             /\ UNCHANGED share
MCSpec == MCInit /\ [][MCNext]_mc
Count(s, g) == Cardinality({i \in 1..Len(s) : s[i] = g})
OnceEach == \A z \in Zs : table[z] # <<>> => \A g \in 1..3 : Count(table[z], g) = 1
NotTwice == \A w \in Ws : \A g \in 1..3 : Count(part[w], g) <= 1
(* a run without overwriting loses nothing and changes nothing *)
Kept == (runs > 0 /\ ~how[2]) => \A x \in {"C", "Z"} : old[x] # 0 => file[x] = old[x]
There == runs > 0 => file[how[1]] # 0
Newest == (runs > 0 /\ how[2]) => file[how[1]] = runs
(* whatever its position, what a galaxy adds inside the table is at most itself, and exactly itself away from the ends *)
Whole == \A p \in 0..19 : LET s == Part(p, 0, 4) + Part(p, 1, 4) + Part(p, 2, 4) + Part(p, 3, 4) + Part(p, 4, 4)
                          IN s <= 4 /\ (p >= 2 /\ p <= 18 => s = 4)
=================================================================================
