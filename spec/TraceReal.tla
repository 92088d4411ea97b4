------------------------------- MODULE TraceReal -------------------------------
(* Trace validation for the closed loop with the real solver.  Every problem comes    *)
(* with its certificate, which is checked again here.  Plans are logged in             *)
(* thousandths.                                                                          *)
EXTENDS Real, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES l, dims, tally
vars == <<l, dims, tally>>
Dm7(a) == [nx |-> a[3], nu |-> a[4], ny |-> a[5], ph |-> a[6], ch |-> a[7], ni |-> a[8], ne |-> a[9]]
\* per class of problem: regular ones solved, and those of them with the certified optimum
Class(p) == <<Kind(p), p.opt[3]>>
Classes == {<<k, h>> : k \in {0, 1}, h \in {0, 1}}
Init == l = 1 /\ dims = <<>> /\ tally = [c \in Classes |-> <<0, 0>>]
Check(name, ok) == IF ok THEN {} ELSE {<<Focus, name>>}
Near(o, v, tol) == IsNum(o) /\ Abs(o - v) <= tol
T == 1000
\* recorded rows are numbers, so that the clauses below mean something
Num(s) == \A i \in 1..Len(s) : IsNum(s[i])

\* ---- what any result shows, solved or not
Shown(D, p, e) ==
         Check("sizes of the plan", Len(e.x) = (D.ph + 1) * D.nx /\ Len(e.u) = (D.ph + 1) * D.nu /\ Len(e.y) = (D.ph + 1) * D.ny /\ Len(e.cmd) = D.nu)
\* irregular problems may leave the solver without a subproblem to solve: it may then stop anywhere, even with no numbers
Numbers(e) == Num(e.x) /\ Num(e.u) /\ Num(e.y) /\ Num(e.cmd) /\ IsNum(e.cost) /\ IsNum(e.jseq)
\* ---- what every solved problem shows
OutRow(D, p, e, k, j) == SumTo([i \in 1..D.nx |-> p.C[(j - 1) * D.nx + i] * e.x[k * D.nx + i]], D.nx) + SumTo([i \in 1..D.nu |-> p.Dm[(j - 1) * D.nu + i] * e.u[k * D.nu + i]], D.nu)
Solved(D, p, e) ==
         Check("the plan is made of numbers", Numbers(e))
    \cup Check("the plan starts at the measured state", \A i \in 1..D.nx : Near(e.x[i], T * p.x0[i], 1))
    \cup Check("the command is the first planned input", \A i \in 1..D.nu : e.cmd[i] = e.u[i])
    \cup Check("the input is held beyond the control horizon", \A k \in 0..D.ph, i \in 1..D.nu : e.u[k * D.nu + i] = e.u[Blk(D, k) * D.nu + i])
    \cup Check("planned states within their bounds", \A r \in 1..(D.ph * D.nx) : LET v == e.x[D.nx + r] IN v >= MulE(p.xlo[r], T) - 1 /\ v <= MulE(p.xhi[r], T) + 1)
    \cup Check("planned inputs within their bounds", \A r \in 1..(D.ch * D.nu) : LET v == e.u[r] IN v >= MulE(p.ulo[r], T) - 1 /\ v <= MulE(p.uhi[r], T) + 1)
    \cup Check("planned outputs are those of the plan", \A k \in 0..D.ph, j \in 1..D.ny : Near(e.y[k * D.ny + j], OutRow(D, p, e, k, j), 8))
    \cup Check("the cost is that of the plan", IF Hard(p) THEN Near(e.cost, e.jseq, 2) ELSE e.cost >= e.jseq - 2)
\* ---- solved, linear, and reported feasible: the plan is a trajectory of the model within the user's constraints
LinRow(D, p, e, k, i) ==
      SumTo([j \in 1..D.nx |-> Mm(D, p, i, j) * e.x[(k + 1) * D.nx + j] - Nm(D, p, i, j) * e.x[k * D.nx + j]], D.nx)
    - SumTo([j \in 1..D.nu |-> Pm(D, p, i, j) * e.u[k * D.nu + j]], D.nu)
UserRowE(D, gx, gu, e, q) ==
    SumTo([k \in 1..(D.ph + 1) |-> SumTo([i \in 1..D.nx |-> gx[(q - 1) * (D.ph + 1) * D.nx + (k - 1) * D.nx + i] * e.x[(k - 1) * D.nx + i]], D.nx)
                                 + SumTo([i \in 1..D.nu |-> gu[(q - 1) * (D.ph + 1) * D.nu + (k - 1) * D.nu + i] * e.u[(k - 1) * D.nu + i]], D.nu)], D.ph + 1)
Follows(D, p, e) ==
    LET g == TLCEval([q \in 1..D.ni |-> UserRowE(D, p.igx, p.igu, e, q) + T * p.io[q]]) IN
         Check("the plan follows the model", \A k \in 0..(D.ph - 1), i \in 1..D.nx : Near(LinRow(D, p, e, k, i), T * Fm(p) * p.d[k * D.nx + i], 15))
    \cup Check("the user's equality constraints hold", \A q \in 1..D.ne : Near(UserRowE(D, p.egx, p.egu, e, q), -T * p.eo[q], 25))
         \* soft: the excess is at most the slack, whose square is paid for in the cost
    \cup Check("the user's inequality constraints hold", \A q \in 1..D.ni : g[q] <= 25 \/ (~Hard(p) /\ (g[q] - 25) \div 32 <= 40000
                                                                                            /\ Sq((g[q] - 25) \div 32) <= (2 * (e.cost - e.jseq + 4)) + 1))

\* ---- regular problems: the gradients of the active constraints are independent (modulo a prime, hence over the rationals)
PR == 32003
Comb(r, pv, c) == [j \in 1..Len(r) |-> (((pv[c] * r[j]) % PR) - ((r[c] * pv[j]) % PR)) % PR]
RECURSIVE Indep(_)
Indep(M) == IF M = <<>> THEN TRUE
            ELSE LET h == Head(M)  nz == {c \in 1..Len(h) : h[c] # 0} IN
                 IF nz = {} THEN FALSE
                 ELSE LET c == CHOOSE c \in nz : TRUE IN
                      \E N \in {[k \in 1..(Len(M) - 1) |-> IF M[k + 1][c] = 0 THEN M[k + 1] ELSE Comb(M[k + 1], h, c)]} : Indep(N)
NV(D) == (D.ph * D.nx) + (D.ch * D.nu) + 1
XI(D, k, i) == (k - 1) * D.nx + i
UI(D, m, i) == (D.ph * D.nx) + m * D.nu + i
\* a row from a function of state row and of input block
ModelRow(D, p, k, i) == [c \in 1..NV(D) |->
    IF c <= D.ph * D.nx THEN LET r == (c - 1) \div D.nx + 1  j == ((c - 1) % D.nx) + 1 IN
                             (IF r = k + 1 THEN Mm(D, p, i, j) ELSE IF r = k THEN -Nm(D, p, i, j) ELSE 0) % PR
    ELSE IF c < NV(D) THEN LET m == (c - D.ph * D.nx - 1) \div D.nu  j == ((c - D.ph * D.nx - 1) % D.nu) + 1 IN
                             (IF Blk(D, k) = m THEN -Pm(D, p, i, j) ELSE 0) % PR
    ELSE 0]
UserGrad(D, gx, gu, q, slack) == [c \in 1..NV(D) |->
    IF c <= D.ph * D.nx THEN gx[(q - 1) * (D.ph + 1) * D.nx + D.nx + c] % PR
    ELSE IF c < NV(D) THEN LET m == (c - D.ph * D.nx - 1) \div D.nu  j == ((c - D.ph * D.nx - 1) % D.nu) + 1 IN
                             SumTo([k \in 1..(D.ph + 1) |-> IF Blk(D, k - 1) = m THEN gu[(q - 1) * (D.ph + 1) * D.nu + (k - 1) * D.nu + j] ELSE 0], D.ph + 1) % PR
    ELSE slack % PR]
Unit(D, c) == [j \in 1..NV(D) |-> IF j = c THEN 1 ELSE 0]
Idx(n, T2(_)) == SelectSeq([i \in 1..n |-> i], T2)
ActiveRows(D, p) ==
    LET ax == Idx(D.ph * D.nx, LAMBDA r : p.X[r] = p.xlo[r] \/ p.X[r] = p.xhi[r])
        au == Idx(D.ch * D.nu, LAMBDA r : p.U[r] = p.ulo[r] \/ p.U[r] = p.uhi[r])
        ai == Idx(D.ni, LAMBDA q : UserRow(D, p, p.igx, p.igu, p.X, p.U, q) + p.io[q] = p.e[1])
    IN [k \in 1..Len(ax) |-> Unit(D, ax[k])] \o [k \in 1..Len(au) |-> Unit(D, (D.ph * D.nx) + au[k])]
       \o (IF Hard(p) THEN <<Unit(D, NV(D))>> ELSE <<>>)
       \o [k \in 1..(D.ph * D.nx) |-> ModelRow(D, p, (k - 1) \div D.nx, ((k - 1) % D.nx) + 1)]
       \o [q \in 1..Len(ai) |-> UserGrad(D, p.igx, p.igu, ai[q], -1)] \o [q \in 1..D.ne |-> UserGrad(D, p.egx, p.egu, q, 0)]
Regular(D, p) == \E M \in {ActiveRows(D, p)} : Len(M) <= NV(D) /\ Indep(M)

Optimal(D, p, e) == /\ e.st = 0 /\ e.feas = 1
                    /\ \A r \in 1..(D.ph * D.nx) : Near(e.x[D.nx + r], T * p.X[r], 20)
                    /\ \A r \in 1..(D.ch * D.nu) : Near(e.u[r], T * p.U[r], 20)
                    /\ Abs((2 * e.cost) - (T * Cost2(D, p, p.X, p.U, p.e[1]))) <= 20 + (Cost2(D, p, p.X, p.U, p.e[1]) \div 5)

Set(f, i, v) == [k \in DOMAIN f \cup {i} |-> IF k = i THEN v ELSE f[k]]
Bad(D, p, e, reg) == Check("certificate", CertOk(D, p)) \cup Shown(D, p, e)
                \cup (IF e.st = 0 /\ Shown(D, p, e) = {} /\ (reg \/ Numbers(e))
                      THEN LET s == TLCEval(Solved(D, p, e)) IN s \cup (IF s = {} /\ e.feas = 1 /\ reg THEN Follows(D, p, e) ELSE {})
                      ELSE {})
Report(bad) == bad # {} => PrintT(<<"MISMATCH", l, bad>>)
\* of every class, nearly all regular problems are solved to their optimum (the solver may give up now and then)
Few == Check("regular problems are solved to their optimum", \A c \in Classes : tally[c][1] >= 20 => 20 * tally[c][2] >= 18 * tally[c][1])
Step(e) == \/ /\ e.op = "new"
              /\ dims' = Set(dims, e.i, Dm7(e.a)) /\ UNCHANGED tally
           \/ /\ e.op = "solve"
              /\ \E D \in {dims[e.i]} : \E p \in {Unpack(D, e.a)} :
                  \E reg \in {Kind(p) # 2 /\ Regular(D, p)} :
                    /\ Report(TLCEval(Bad(D, p, e, reg)))
                    /\ tally' = IF reg THEN [tally EXCEPT ![Class(p)] = <<@[1] + 1, @[2] + (IF Optimal(D, p, e) THEN 1 ELSE 0)>>] ELSE tally
              /\ UNCHANGED dims
           \/ /\ e.op \notin {"new", "solve"}
              /\ (e.op = "end" => Report(Few) /\ PrintT(<<"TALLY", tally>>))
              /\ UNCHANGED <<dims, tally>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].op = "end"
=============================================================================
