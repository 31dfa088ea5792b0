-------------------------------- MODULE BkgTrace --------------------------------
EXTENDS TraceKit, Bkg
TInit == KitInit /\ BInit({}, <<>>, {})
(* a sparse table as a function of the cell *)
AsTable(L) == [x \in {<<L[i][1], L[i][2], L[i][3]>> : i \in 1..Len(L)} |-> (CHOOSE i \in 1..Len(L) : <<L[i][1], L[i][2], L[i][3]>> = x)]
At(F, L, i, j, k) == IF <<i, j, k>> \in DOMAIN F THEN L[F[<<i, j, k>>]][4] ELSE 0
TGen ==
    /\ IsEvent("gen") /\ Advance /\ UNCHANGED bvars
    /\ Clause("making the background failed", Ev.res = "ok")
    /\ Ev.res = "ok" =>
       LET F == AsTable(Ev.t)
           G == AsTable(Ev.ln)
       IN /\ Clause("a table is not made of whole galaxies spread over cells", Ev.exact /\ Ev.lnok)
          /\ Clause("axes of the table are not the configured ones", Ev.heads)
          /\ Clause("area of a magnitude cell is wrong", Ev.area)
          /\ Ev.exact => Clause("a cell does not contain the galaxies it should", \A k \in 1..Ev.nz : \A i \in 0..(Ev.nm - 1) : \A j \in 0..(Ev.nc - 1) :
                           At(F, Ev.t, i, j, k - 1) = Cell(Ev, i, j, k))
          /\ Ev.lnok => Clause("a logarithmic cell does not contain the galaxies it should", \A k \in 1..Ev.nz : \A i \in 0..(Ev.nm - 1) : \A j \in 0..(Ev.nln - 1) :
                           LET w == LnCell(Ev, i, j, k) IN Abs(At(G, Ev.ln, i, j, k - 1) - w) <= (IF w = 0 /\ Ev.gals = <<>> THEN 0 ELSE 3 * Len(Ev.gals)))
TZgen ==
    /\ IsEvent("zgen") /\ Advance /\ UNCHANGED bvars
    /\ Clause("making the zred background failed", Ev.res = "ok")
    /\ Ev.res = "ok" =>
       /\ Clause("the zred background displaced the other", Ev.both)
       /\ Clause("axes of the zred table are not the configured ones", Ev.shape)
       /\ Ev.shape => Clause("a zred cell does not contain the galaxies it should", \A i \in 1..Ev.nm : \A j \in 1..Ev.nz :
                        Abs(Ev.t[i][j] - MaxOf((1000 * ZCell(Ev, i - 1, j - 1)) \div 16, 100)) <= 2)
TStart == IsEvent("start") /\ Advance /\ file' = [x \in {"C", "Z"} |-> 0] /\ UNCHANGED <<todo, part, table>>
TRun == /\ IsEvent("run") /\ Advance /\ UNCHANGED <<todo, part, table>>
        /\ LET want == AfterRun(file, Ev.kind, Ev.clobber, Ev.fresh)
           IN /\ Clause("a run failed", Ev.res = "ok")
              /\ Clause("a background that was there is not kept", Ev.clobber \/ \A x \in {"C", "Z"} : file[x] # 0 => (IF x = "C" THEN Ev.c ELSE Ev.z) = file[x])
              /\ Clause("the file does not contain what the run should leave", Ev.res = "ok" => (IF Ev.kind = "C" THEN Ev.c = want["C"] ELSE Ev.z = want["Z"]))
        /\ file' = [x \in {"C", "Z"} |-> IF x = "C" THEN Ev.c ELSE Ev.z]
Corner(T, q, fc) ==
    LET n1 == Len(T)
        n2 == Len(T[1])
        n3 == Len(T[1][1])
        low(c) == LET S(a, b) == T[a + 1][c + 1][b + 1] IN Bi(S, q.m, 20, n1, q.z, 20, n3)
        g == q.c % fc
    IN (fc - g) * low(Node(q.c, fc, n2)) + g * low(Up(q.c, fc, n2))
Bare(T, q, fc) == \A a \in {Node(q.m, 20, Len(T)) + d : d \in {-1, 0, 1}} : \A b \in {Node(q.c, fc, Len(T[1])) + d : d \in {-1, 0, 1}} : \A c \in {Node(q.z, 20, Len(T[1][1])) + d : d \in {-1, 0, 1}} :
                   (a >= 0 /\ a < Len(T) /\ b >= 0 /\ b < Len(T[1]) /\ c >= 0 /\ c < Len(T[1][1])) => T[a + 1][b + 1][c + 1] = 0
TLook ==
    /\ IsEvent("look") /\ Advance /\ UNCHANGED bvars
    /\ Clause("a background could not be read", Ev.res = "ok")
    /\ Ev.res = "ok" =>
       LET W(q) == (Corner(Ev.T, q, Ev.fc) \div (4 * Ev.fc))     \* hundredths
       IN /\ Clause("a galaxy outside the table has a background", \A i \in 1..Len(Ev.q) : Ev.q[i].out => Ev.q[i].inf)
          /\ Clause("an empty background is not infinite", \A i \in 1..Len(Ev.q) : LET q == Ev.q[i] IN (~q.out /\ ~q.allow0 /\ Bare(Ev.T, q, Ev.fc)) => q.inf)
          /\ Clause("an empty background is not zero where that is asked for", \A i \in 1..Len(Ev.q) : LET q == Ev.q[i] IN (~q.out /\ q.allow0) => ~q.inf)
          /\ Clause("background is not that of the table", \A i \in 1..Len(Ev.q) : LET q == Ev.q[i] IN
                      q.out \/ (IF q.inf THEN W(q) <= 2 ELSE Abs(q.v - W(q)) <= 4))
          /\ Clause("total over chisq is not the sum", Ev.nsum)
          /\ Clause("logarithmic table changes at its nodes", Ev.lnnode)
TZlook ==
    /\ IsEvent("zlook") /\ Advance /\ UNCHANGED bvars
    /\ LET S(a, b) == Ev.T[a + 1][b + 1]
           W(q) == Bi(S, q.m, 20, Len(Ev.T), q.z, 10, Len(Ev.T[1])) \div 2
       IN /\ Clause("a galaxy outside the zred table has a background", \A i \in 1..Len(Ev.q) : Ev.q[i].out => Ev.q[i].inf)
          /\ Clause("zred background is not that of the table", \A i \in 1..Len(Ev.q) : LET q == Ev.q[i] IN
                      q.out \/ q.m >= 20 * (Len(Ev.T) - 1) \/ q.z >= 10 * (Len(Ev.T[1]) - 1) \/ (~q.inf /\ Abs(q.v - W(q)) <= 4))
TNext == TGen \/ TZgen \/ TStart \/ TRun \/ TLook \/ TZlook
TSpec == TInit /\ [][TNext]_<<t, l, bvars>>
=================================================================================
