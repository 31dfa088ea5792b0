---------------------------------- MODULE Bkg ----------------------------------
(* The galaxy background: every galaxy is counted once, spread over the two    *)
(* nearest cells of every axis, in the table of every redshift; the redshifts  *)
(* are divided between processes and the galaxies are read in portions.        *)
EXTENDS Integers, Sequences, FiniteSets

(* ---- counting: a position p in parts of a cell (u parts per cell, even) ---- *)
A(x) == IF x < 0 THEN -x ELSE x
Part(p, i, u) == LET c == p \div u
                     f == p % u
                     h == u \div 2
                     o == IF f < h THEN c - 1 ELSE c + 1
                 IN (IF i = c THEN u - A(h - f) ELSE 0) + (IF i = o /\ f # h THEN A(h - f) ELSE 0)
RECURSIVE Sum(_, _, _)
Sum(f(_), lo, hi) == IF lo > hi THEN 0 ELSE f(lo) + Sum(f, lo + 1, hi)
In(p, u, nn) == p >= 0 /\ p < u * nn
(* a galaxy is in the table of redshift k when it is brighter than the end of the cell of the limit *)
Counted(g, k, e) == In(g.m, 4, e.nm) /\ g.m < 4 * (e.lim[k] + 1)
Cell(e, i, j, k) == LET f(x) == LET g == e.gals[x] IN IF Counted(g, k, e) /\ In(g.c[k], 4, e.nc) THEN Part(g.m, i, 4) * Part(g.c[k], j, 4) ELSE 0
                    IN Sum(f, 1, Len(e.gals))
LnCell(e, i, j, k) == LET f(x) == LET g == e.gals[x] IN IF Counted(g, k, e) /\ In(g.l[k], 100, e.nln) THEN Part(g.m, i, 4) * Part(g.l[k], j, 100) ELSE 0
                      IN Sum(f, 1, Len(e.gals))
ZCell(e, i, j) == LET f(x) == LET g == e.gals[x] IN IF g.ok /\ In(g.m, 4, e.nm) /\ In(g.z, 4, e.nz) THEN Part(g.m, i, 4) * Part(g.z, j, 4) ELSE 0
                  IN Sum(f, 1, Len(e.gals))

(* ---- looking up: nodes, and parts of the way to the next ---- *)
Node(p, u, nn) == LET a == p \div u IN IF a >= nn THEN nn - 1 ELSE a
Up(p, u, nn) == LET a == Node(p, u, nn) + 1 IN IF a >= nn THEN nn - 1 ELSE a
Bi(T(_, _), p, u, n1, q, v, n2) ==
    LET f == p % u
        g == q % v
    IN (u - f) * (v - g) * T(Node(p, u, n1), Node(q, v, n2)) + f * (v - g) * T(Up(p, u, n1), Node(q, v, n2))
       + (u - f) * g * T(Node(p, u, n1), Up(q, v, n2)) + f * g * T(Up(p, u, n1), Up(q, v, n2))

(* ---- the file: which background is in it (0: none) ---- *)
AfterRun(file, kind, clobber, new) ==
    IF clobber THEN [x \in {"C", "Z"} |-> IF x = kind THEN new ELSE 0]
    ELSE IF file[kind] # 0 THEN file ELSE [file EXCEPT ![kind] = new]

(* ---- the run as a machine ---- *)
VARIABLES todo,    \* worker -> portions not yet read
          part,    \* worker -> galaxies counted so far
          table,   \* redshift -> galaxies counted
          file
bvars == <<todo, part, table, file>>
BInit(workers, portions, zs) == /\ todo = [w \in workers |-> portions] /\ part = [w \in workers |-> <<>>]
                                /\ table = [z \in zs |-> <<>>] /\ file = [x \in {"C", "Z"} |-> 0]
Read(w) == /\ todo[w] # <<>> /\ part' = [part EXCEPT ![w] = @ \o Head(todo[w])] /\ todo' = [todo EXCEPT ![w] = Tail(@)]
           /\ UNCHANGED <<table, file>>
Merge(share) == /\ \A w \in DOMAIN todo : todo[w] = <<>>
                /\ table' = [z \in DOMAIN table |-> LET w == CHOOSE x \in DOMAIN todo : z \in share[x] IN part[w]]
                /\ UNCHANGED <<todo, part, file>>
RunFile(kind, clobber, new) == file' = AfterRun(file, kind, clobber, new) /\ UNCHANGED <<todo, part, table>>
=================================================================================
