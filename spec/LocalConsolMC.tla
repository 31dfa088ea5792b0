---------------------------- MODULE LocalConsolMC ----------------------------
(* The two-pass renumbering the consolidation uses (temporary ids while the   *)
(* files are read, final ids after sorting) gives every member its cluster's  *)
(* final id, whatever ids the pixel files used, for all contents of two files.*)
EXTENDS LocalConsol, TLC
VARIABLES files, next, cats, mems, done
C(g, id, inp, like) == [gid |-> g, id |-> id, inpix |-> inp, mask |-> 0, lam |-> 8, scale |-> 4, like |-> like]
Opt(a, b) == {<<>>} \cup {<<C(a, i, x, k)>> : i \in {1, 2}, x \in BOOLEAN, k \in {1, 2}}
             \cup {<<C(a, i, x, k), C(b, 3 - i, y, m)>> : i \in {1, 2}, x, y \in BOOLEAN, k, m \in {1, 2}}
Init == /\ \E a \in Opt(1, 2), b \in Opt(3, 4) : files = <<a, b>>
        /\ next = 1 /\ cats = <<>> /\ mems = {} /\ done = FALSE
Read == /\ next <= 2
        /\ LET use == SelectSeq(files[next], LAMBDA c : KeepC(c, 4, 1))
               new == [i \in 1..Len(use) |-> [use[i] EXCEPT !.id = i + Len(cats)]]
           IN /\ cats' = cats \o new
              /\ mems' = mems \cup {[gal |-> new[i].gid, id |-> new[i].id] : i \in 1..Len(new)}
        /\ next' = next + 1 /\ UNCHANGED <<files, done>>
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Sort == /\ next = 3 /\ ~done
        /\ \E f \in Perms(Len(cats)) :
             LET s == [i \in 1..Len(cats) |-> cats[f[i]]] IN
             /\ Ranked(s)
             /\ cats' = [i \in 1..Len(s) |-> [s[i] EXCEPT !.id = i]]
             /\ mems' = {[m EXCEPT !.id = CHOOSE i \in 1..Len(s) : s[i].id = m.id] : m \in mems}
        /\ done' = TRUE /\ UNCHANGED <<files, next>>
Spec == Init /\ [][Read \/ Sort]_<<files, next, cats, mems, done>>
MembersFollow == \A m \in mems : \E i \in 1..Len(cats) : cats[i].id = m.id /\ cats[i].gid = m.gal
Exact == done => {cats[i].gid : i \in 1..Len(cats)} = {c.gid : c \in {files[f][i] : f \in {1}, i \in 1..Len(files[1])} \cup {files[f][i] : f \in {2}, i \in 1..Len(files[2])}} \cap
                 {c.gid : c \in {x \in {files[1][i] : i \in 1..Len(files[1])} \cup {files[2][i] : i \in 1..Len(files[2])} : x.inpix}}
===============================================================================
