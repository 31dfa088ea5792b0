------------------------------ MODULE LocalSplit ------------------------------
(* How a local run divides the survey (C11).  Sky pixels are in the nested    *)
(* numbering, so the pixel of resolution 2^k that contains pixel p of         *)
(* resolution 2^m (k <= m) is p \div 4^(m-k).                                  *)
(* A survey is [galk, gal (set), regk (-1: whole sky), region (set), mink,    *)
(* nproc].                                                                    *)
EXTENDS Integers, FiniteSets

RECURSIVE Pow4(_)
Pow4(n) == IF n <= 0 THEN 1 ELSE 4 * Pow4(n - 1)
Up(p, m, k) == p \div Pow4(m - k)
Mx(a, b) == IF a > b THEN a ELSE b

(* the galaxy pixels to be covered *)
Wanted(s) == IF s.regk < 0 THEN s.gal ELSE {p \in s.gal : Up(p, s.galk, s.regk) \in s.region}
(* the jobs at resolution k: every pixel containing a wanted galaxy pixel *)
Jobs(s, k) == {Up(p, s.galk, k) : p \in Wanted(s)}
Start(s) == IF s.regk < 0 THEN s.mink ELSE Mx(s.regk, s.mink)
Tried(s) == IF s.nproc = 1 THEN {Start(s)} ELSE Start(s)..s.galk
Fits(s) == {k \in Tried(s) : Cardinality(Jobs(s, k)) <= 2 * s.nproc}
Chosen(s) == IF Fits(s) = {} THEN Start(s) ELSE CHOOSE k \in Fits(s) : \A j \in Fits(s) : j <= k

(* The guarantees *)
Covers(s, k, jobs) == \A p \in Wanted(s) : Up(p, s.galk, k) \in jobs
NonEmpty(s, k, jobs) == \A j \in jobs : \E p \in Wanted(s) : Up(p, s.galk, k) = j
Inside(s, k, jobs) == s.regk < 0 \/ (k >= s.regk /\ \A j \in jobs : Up(j, k, s.regk) \in s.region)
===============================================================================
