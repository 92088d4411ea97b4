--------------------------------- MODULE Nl ---------------------------------
(* One nonlinear controller: its state, the effect of every public call, and    *)
(* the problem it must hand to its solver.                                       *)
EXTENDS NlFns

DefPar == [fr |-> 0, xr |-> 0, fa |-> 0, xa |-> 0, me |-> 100, mt |-> 0, warm |-> FALSE, hard |-> TRUE]

NlInit(D) ==
    [D |-> D,
     lb |-> [k \in 1..(NZ(D) - 1) |-> -INFV], ub |-> [k \in 1..(NZ(D) - 1) |-> INFV],   \* physical, half units
     sx |-> [i \in 1..D.nx |-> 1], su |-> [i \in 1..D.nu |-> 1],
     par |-> DefPar, ts |-> 0,
     fs |-> [s |-> 0, tol |-> 0], fo |-> 0, fj |-> 0,
     fi |-> [s |-> -1, tol |-> 0, off |-> 0], fe |-> [s |-> -1, tol |-> 0, off |-> 0],
     plan |-> [k \in 1..(NZ(D) - 1) |-> 0],      \* physical, half units
     has |-> FALSE, slack |-> 0,
     cmd |-> [j \in 1..D.nu |-> 0],
     res |-> [st |-> 4, code |-> 0, cost |-> 0, feas |-> 0],    \* what the last-result getter returns
     seq |-> <<>>,                                \* <<>>: all zero; else [X, U, Y]
     log |-> <<>>]                                \* solves since the last reset: <<milliseconds, status>>

\* ---- horizon slices
SliceAll(s, t) == s = -1 /\ t = -1
SliceOk(s, t, n) == SliceAll(s, t) \/ (0 <= s /\ s < t /\ t <= n)
InSlice(s, t, k) == SliceAll(s, t) \/ (s <= k /\ k < t)      \* k from 0

SetX(st, lo, hi, s, t) ==      \* lo, hi: functions of (step, component)
    LET D == st.D IN
    [st EXCEPT !.lb = [k \in DOMAIN st.lb |-> IF k <= D.ph * D.nx /\ InSlice(s, t, (k - 1) \div D.nx)
                                              THEN lo[((k - 1) \div D.nx)][((k - 1) % D.nx) + 1] ELSE st.lb[k]],
               !.ub = [k \in DOMAIN st.ub |-> IF k <= D.ph * D.nx /\ InSlice(s, t, (k - 1) \div D.nx)
                                              THEN hi[((k - 1) \div D.nx)][((k - 1) % D.nx) + 1] ELSE st.ub[k]]]
SetU(st, lo, hi, s, t) ==
    LET D == st.D
        o == D.ph * D.nx IN
    [st EXCEPT !.lb = [k \in DOMAIN st.lb |-> IF k > o /\ InSlice(s, t, (k - o - 1) \div D.nu)
                                              THEN lo[((k - o - 1) \div D.nu)][((k - o - 1) % D.nu) + 1] ELSE st.lb[k]],
               !.ub = [k \in DOMAIN st.ub |-> IF k > o /\ InSlice(s, t, (k - o - 1) \div D.nu)
                                              THEN hi[((k - o - 1) \div D.nu)][((k - o - 1) % D.nu) + 1] ELSE st.ub[k]]]
Sub(a, from, n) == [i \in 1..n |-> a[from + i]]
Cols(a, from, n, h) == [k \in 0..(h - 1) |-> [i \in 1..n |-> a[from + k * n + i]]]
Same(a, from, n, h) == [k \in 0..(h - 1) |-> [i \in 1..n |-> a[from + i]]]

Dis(v) == IF v > 0 THEN v ELSE 0      \* a tolerance or limit at or below zero is disabled

Thrown == -99

\* configuration call op with integer arguments a: <<new state, returned value>>
NlSet(st, op, a) ==
    LET D == st.D IN
    CASE op = "xb" -> LET ok == SliceOk(a[1], a[2], D.ph) IN
            <<IF ok THEN SetX(st, Same(a, 2, D.nx, D.ph), Same(a, 2 + D.nx, D.nx, D.ph), a[1], a[2]) ELSE st, IF ok THEN 1 ELSE 0>>
      [] op = "ub" -> LET ok == SliceOk(a[1], a[2], D.ch) IN
            <<IF ok THEN SetU(st, Same(a, 2, D.nu, D.ch), Same(a, 2 + D.nu, D.nu, D.ch), a[1], a[2]) ELSE st, IF ok THEN 1 ELSE 0>>
      [] op = "xbm" -> <<SetX(st, Cols(a, 0, D.nx, D.ph), Cols(a, D.nx * D.ph, D.nx, D.ph), -1, -1), 1>>
      [] op = "ubm" -> <<SetU(st, Cols(a, 0, D.nu, D.ch), Cols(a, D.nu * D.ch, D.nu, D.ch), -1, -1), 1>>
      [] op \in {"yb", "ybm"} -> <<st, Thrown>>      \* output bounds cannot be set on this controller
      [] op = "par" -> <<[st EXCEPT !.par = [fr |-> Dis(a[1]), xr |-> Dis(a[2]), fa |-> Dis(a[3]), xa |-> Dis(a[4]),
                                             me |-> Dis(a[5]), mt |-> Dis(a[6]), warm |-> a[7] # 0, hard |-> a[8] # 0]], 1>>
      [] op = "sx" -> <<[st EXCEPT !.sx = Sub(a, 0, D.nx)], 1>>
      [] op = "su" -> <<[st EXCEPT !.su = Sub(a, 0, D.nu)], 1>>
      [] op = "ts" -> <<[st EXCEPT !.ts = a[1]], 1>>
      [] op = "state" -> <<[st EXCEPT !.fs = [s |-> a[1], tol |-> a[2]]], 1>>
      [] op = "out" -> <<[st EXCEPT !.fo = a[1]], 1>>
      [] op = "obj" -> <<[st EXCEPT !.fj = a[1]], 1>>
      [] op = "ineq" -> <<[st EXCEPT !.fi = [s |-> a[1], tol |-> a[2], off |-> a[3]]], 1>>
      [] op = "eq" -> <<[st EXCEPT !.fe = [s |-> a[1], tol |-> a[2], off |-> a[3]]], 1>>
      [] op = "reset" -> <<[st EXCEPT !.log = <<>>], 1>>
      [] OTHER -> <<st, 1>>

\* ---- the problem handed to the solver (sixteenths, solver units)
ScaleOf(st, k) == LET D == st.D IN
    IF k <= D.ph * D.nx THEN st.sx[((k - 1) % D.nx) + 1] ELSE st.su[((k - D.ph * D.nx - 1) % D.nu) + 1]
LowerOf(st, k) == IF k = NZ(st.D) THEN (IF st.par.hard THEN 0 ELSE -INFV) ELSE DivE(MulE(st.lb[k], 8), ScaleOf(st, k))
UpperOf(st, k) == IF k = NZ(st.D) THEN (IF st.par.hard THEN 0 ELSE INFV) ELSE DivE(MulE(st.ub[k], 8), ScaleOf(st, k))

HasState(st) == st.fs.s > 0
HasObj(st) == st.fj > 0
HasIneq(st) == st.fi.s >= 0
HasEq(st) == st.fe.s >= 0

\* tolerances (1/1024) of the registered equality and inequality constraints; -1: library default (1e-10), which logs as 0
Tol(t) == IF t < 0 THEN 0 ELSE t
EqRegs(st) == (IF HasState(st) THEN <<[k \in 1..(st.D.ph * st.D.nx) |-> Tol(st.fs.tol)]>> ELSE <<>>)
           \o (IF HasEq(st) /\ st.D.ne > 0 THEN <<[k \in 1..st.D.ne |-> Tol(st.fe.tol)]>> ELSE <<>>)
InRegs(st) == IF HasIneq(st) /\ st.D.ni > 0 THEN <<[k \in 1..st.D.ni |-> Tol(st.fi.tol)]>> ELSE <<>>

\* ---- initial guess: plan to shift from (physical, half units), then the shifted, scaled, clamped vector
ColdPlan(st, x0, u0) == LET D == st.D IN
    [k \in 1..(NZ(D) - 1) |-> IF k <= D.ph * D.nx THEN x0[((k - 1) % D.nx) + 1] ELSE u0[((k - D.ph * D.nx - 1) % D.nu) + 1]]
IsCold(st) == ~st.has \/ ~st.par.warm
PlanFor(st, x0, u0) == IF IsCold(st) THEN ColdPlan(st, x0, u0) ELSE st.plan
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
GuessRaw(st, p, k) == LET D == st.D
                         o == D.ph * D.nx IN
    IF k = NZ(D) THEN st.slack * 8
    ELSE IF k <= o
    THEN LET b == (k - 1) \div D.nx
             i == ((k - 1) % D.nx) + 1 IN (p[Min2(b + 1, D.ph - 1) * D.nx + i] * 8) \div st.sx[i]
    ELSE LET b == (k - o - 1) \div D.nu
             j == ((k - o - 1) % D.nu) + 1 IN (p[o + Min2(b + 1, D.ch - 1) * D.nu + j] * 8) \div st.su[j]
GuessOf(st, p) == [k \in 1..NZ(st.D) |-> Clamp(GuessRaw(st, p, k), LowerOf(st, k), UpperOf(st, k))]

\* ---- outcome of a solve: acc is the code the solver answered with, z its vector, f its cost
StatusOf(acc) == IF acc \in {1, 2, 3, 4} THEN 0 ELSE IF acc \in {5, 6} THEN 1 ELSE 3
Feasible(st, X, Y, U, E) ==
    /\ HasIneq(st) => \A q \in 1..st.D.ni : LET g == IneqOf(st.D, st.fi.s, st.fi.off, X, Y, U, E)[q] IN
                          g # NANV /\ g <= Tol(st.fi.tol) \div 256
    /\ HasEq(st) => \A q \in 1..st.D.ne : LET h == EqOf(st.D, st.fe.s, st.fe.off, X, U)[q] IN
                          h # NANV /\ Abs(h) <= Tol(st.fe.tol) \div 256
\* a user function that throws when the solution is post-processed makes the solve fail
\* (objective and state functions need not be called then; an equality is only certain to be called without inequalities)
PostThrows(st, kind) == \/ kind = 3 /\ st.fo > 0
                        \/ kind = 4 /\ HasIneq(st)
                        \/ kind = 5 /\ HasEq(st) /\ ~HasIneq(st)
PhysOf(st, z) == [k \in 1..(NZ(st.D) - 1) |-> z[k] * ScaleOf(st, k)]

NlSolve(st, x0, u0, acc, f, z, postThrow, adv) ==
    LET D == st.D
        plan0 == IF IsCold(st) THEN ColdPlan(st, x0, u0) ELSE st.plan
        ok == acc > 0 /\ ~postThrow
        X == TLCEval(XOf(D, z, x0, st.sx))
        U == TLCEval(UOf(D, z, st.su))
        Y == TLCEval(YOf(D, st.fo, X, U))
        E == z[NZ(D)]
        status == IF ok THEN StatusOf(acc) ELSE 3
        st1 == [st EXCEPT !.log = Append(@, <<adv, status>>)]
    IN IF ok
       THEN [st1 EXCEPT !.plan = PhysOf(st, z), !.has = TRUE, !.slack = E,
                        !.cmd = U[0],
                        !.res = [st |-> status, code |-> acc, cost |-> f, feas |-> IF Feasible(st, X, Y, U, E) THEN 1 ELSE 0],
                        !.seq = [X |-> X, U |-> U, Y |-> Y]]
       ELSE [st1 EXCEPT !.plan = plan0,
                        !.res = [st |-> 3, code |-> -1, cost |-> INFV, feas |-> 0],
                        !.seq = <<>>]
=============================================================================
