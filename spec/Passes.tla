--------------------------------- MODULE Passes ---------------------------------
(* The first pass and the likelihood pass of the cluster finder: which         *)
(* candidates are considered, how the iterations of one candidate proceed,     *)
(* and which are kept. Richness in eighths, scale in halves, redshift in 1e-4. *)
EXTENDS Integers, Sequences, FiniteSets

(* ---- considered ---- *)
SeedOK(c, p) == c.z >= p.zlo /\ c.z <= p.zhi /\ c.chi < p.chimax
Bright(c) == c.mag < c.mlim
Considered1(c, mode, clean, blo, bhi, p) ==
    IF mode = "gals" THEN SeedOK(c, p) /\ Bright(c) /\ c.mag > blo /\ c.mag < bhi
    ELSE SeedOK(c, p) /\ (clean => c.foot)
Considered2(c, clean, p) == c.z > p.zlo /\ c.z < p.zhi /\ c.lam0 > 0 /\ Bright(c) /\ (clean => c.foot)

(* ---- iterations of the first pass ---- *)
InZ(z, p) == z >= p.zlo /\ z <= p.zhi
Poor(lam, sc, p) == lam * sc < 2 * p.min8          \* rejected whatever richness the limit refers to
Rich(lam, sc, p) == 2 * lam >= p.min8 * sc         \* accepted whatever richness the limit refers to
(* number of iterations begun, when each is as scripted *)
RECURSIVE Begun(_, _, _)
Begun(c, p, i) == IF i = p.niter \/ Poor(c.lam[i], c.sc, p) \/ ~InZ(c.zl[i], p) THEN i ELSE Begun(c, p, i + 1)
MustKeep1(c, p) == c.nbr /\ ~c.far /\ \A i \in 1..p.niter : Rich(c.lam[i], c.sc, p) /\ InZ(c.zl[i], p)
MustDrop1(c, p) == ~c.nbr \/ c.far \/ (\E i \in 1..p.niter : Poor(c.lam[i], c.sc, p) \/ ~InZ(c.zl[i], p)) \/ c.lam[p.niter] < p.min8

(* ---- likelihood: quarters of membership probability, likelihood in 1e-3 ---- *)
LogFree == <<288, 693, 1386>>        \* -ln(1 - k/4)
RECURSIVE MemTerm(_)
MemTerm(m) == IF m = <<>> THEN 0 ELSE (IF Head(m) = 0 THEN 0 ELSE LogFree[Head(m)]) + MemTerm(Tail(m))
Members(m) == Cardinality({i \in 1..Len(m) : m[i] > 0})
LamLike(c) == MemTerm(c.mem) - (250 * c.lam) \div c.sc
MustKeep2(c, p) == c.nbr /\ ~c.far /\ Rich(c.lam, c.sc, p) /\ Members(c.mem) >= 3
MustDrop2(c, p) == ~c.nbr \/ c.far \/ c.lam < p.min8 \/ Members(c.mem) < 3

(* ---- the passes as a machine over a list of candidates ---- *)
VARIABLES pass, pos, it, list, cat, nowz
pvars == <<pass, pos, it, list, cat, nowz>>
PInit(L) == pass = "first" /\ pos = 1 /\ it = 1 /\ list = L /\ cat = <<>> /\ nowz = 0
Consider(ok(_)) == /\ pass # "end" /\ pos <= Len(list) /\ it = 1 /\ nowz = 0
                   /\ IF ok(list[pos]) THEN nowz' = list[pos].z0 /\ UNCHANGED <<pos>> ELSE pos' = pos + 1 /\ UNCHANGED nowz
                   /\ UNCHANGED <<pass, it, list, cat>>
(* one iteration: rejected, continued from the redshift just found, or recorded *)
Iterate(out(_, _), maxit) ==
    /\ pass # "end" /\ pos <= Len(list) /\ nowz # 0
    /\ LET c == list[pos]
           o == out(c, it)
       IN IF ~o.ok THEN pos' = pos + 1 /\ it' = 1 /\ nowz' = 0 /\ UNCHANGED cat
          ELSE IF it < maxit THEN it' = it + 1 /\ nowz' = o.z /\ UNCHANGED <<pos, cat>>
          ELSE cat' = Append(cat, [c EXCEPT !.z0 = o.z]) /\ pos' = pos + 1 /\ it' = 1 /\ nowz' = 0
    /\ UNCHANGED <<pass, list>>
NextPass == /\ pos > Len(list) /\ pass # "end"
            /\ pass' = IF pass = "first" /\ cat # <<>> THEN "like" ELSE "end"
            /\ IF pass' = "like" THEN list' = cat /\ cat' = <<>> ELSE UNCHANGED <<list, cat>>
            /\ pos' = 1 /\ it' = 1 /\ nowz' = 0
=================================================================================
