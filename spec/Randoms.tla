--------------------------------- MODULE Randoms ---------------------------------
(* Randoms (C20): placing copies of clusters where the volume limit allows them,    *)
(* weighting what survives the cuts, and the maximum redshift of a map pixel.       *)
EXTENDS Integers, Sequences, FiniteSets
(* a random [id, src, z, lam, f, zmax]: its position has coverage f (quarters, -1   *)
(* outside) and maximum redshift zmax; a cluster [id, lam, z]                       *)
InFootprint(x) == x.f > 0
InVolume(x) == x.z < x.zmax
FromOne(x, C) == \E c \in C : c.id = x.src /\ c.z = x.z /\ c.lam = x.lam
Ids(R) == {R[i].id : i \in 1..Len(R)}
(* the cuts of a request q on draws [src, z, lam, sc, mf] and clusters [id, lam, sc] *)
RichIn(x, q, ss) == /\ IF ss THEN x.lam > q.ml * x.sc ELSE x.lam > q.ml
                    /\ x.lam > q.l0 /\ x.lam <= q.l1
InZ(x, q) == x.z >= q.z0 /\ x.z < q.z1
Source(x, C) == CHOOSE c \in C : c.id = x.src
Considered(D, C, q, ss) == {i \in 1..Len(D) : InZ(D[i], q) /\ \E c \in C : c.id = D[i].src /\ RichIn(c, q, ss)}
Survivors(D, C, q, ss, maxmf) == {i \in Considered(D, C, q, ss) : RichIn(D[i], q, ss) /\ D[i].mf < maxmf}
(* weight of a survivor, as a fraction <<draws of its source, surviving draws>>     *)
OfSource(S, D, s) == {j \in S : D[j].src = s}
Weight(i, D, C, q, ss, maxmf) == <<Cardinality(OfSource(Considered(D, C, q, ss), D, D[i].src)), Cardinality(OfSource(Survivors(D, C, q, ss, maxmf), D, D[i].src))>>
==================================================================================
