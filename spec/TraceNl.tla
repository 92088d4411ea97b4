------------------------------- MODULE TraceNl -------------------------------
(* Trace validation for the nonlinear controller: the trace recorded from the    *)
(* real library (harness/nl_main.cpp) is stepped through the actions of Nl, one   *)
(* event per action, and every observation is compared with what Nl says.  FOCUS  *)
(* selects the property whose observations are compared.                          *)
EXTENDS Nl, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
In(p) == Focus = p \/ Focus = "ALL"

VARIABLES l, cs
vars == <<l, cs>>

\* gradient comparison: both in thousandths; tolerance grows with the size of the value and of the own step
Close(o, e, tol) == IsNum(o) /\ Abs(o - e) <= tol

Shift(z, k, d) == [z EXCEPT ![k] = @ + d]

\* x0 in e is the measured state of this call; z a probe in half units
Tr(st, x0, z) == LET X == TLCEval(XOf(st.D, z, x0, st.sx))
                     U == TLCEval(UOf(st.D, z, st.su))
                     Y == TLCEval(YOf(st.D, st.fo, X, U))
                 IN [X |-> X, U |-> U, Y |-> Y, E |-> z[NZ(st.D)]]
CostAt(st, x0, z) == LET t == Tr(st, x0, z) IN CostOf(st.D, st.fj, t.X, t.Y, t.U, t.E)
IneqAt(st, x0, z) == LET t == Tr(st, x0, z) IN TLCEval(IneqOf(st.D, st.fi.s, st.fi.off, t.X, t.Y, t.U, t.E))
EqAt(st, x0, z) == LET t == Tr(st, x0, z) IN TLCEval(EqOf(st.D, st.fe.s, st.fe.off, t.X, t.U))
ModAt(st, x0, z) == LET t == Tr(st, x0, z) IN TLCEval(ModelOf(st.D, st.fs.s, st.ts, t.X, t.U))

\* physical size of the k-th entry, for the finite-difference tolerance
Own(st, z, k) == IF k = NZ(st.D) THEN Abs(z[k]) ELSE Abs(z[k]) * ScaleOf(st, k)

\* ---- objective: value sixteenths, gradient thousandths (unit step in solver units: two half units each way)
ObjValOk(st, x0, p) == p.obj = CostAt(st, x0, p.z)
ObjGradOk(st, x0, p) == \A k \in 1..NZ(st.D) :
    LET a == CostAt(st, x0, Shift(p.z, k, 2))
        b == CostAt(st, x0, Shift(p.z, k, -2))
        d == a - b
        c == Abs(a + b - 2 * CostAt(st, x0, p.z))        \* curvature: what a one-sided difference cannot see
        e == (d \div 4) * 125 + ((d % 4) * 125) \div 4
    IN Close(p.og[k], e, 3 + Abs(e) \div 100000 + Own(st, p.z, k) \div 100 + ((c \div 16) * (1 + Own(st, p.z, k))) \div 1000)

\* ---- a constraint block: values o (sixteenths) and gradient og against quarters v, derivative d over 2 solver units
\* den: scale dividing each row, sg: sign
ValOk(o, v, den, sg) == /\ Len(o) = Len(v)
                        /\ \A r \in 1..Len(v) : IF v[r] = NANV THEN o[r] = NANV
                              ELSE IsNum(o[r]) /\ o[r] * den[r] = sg * 4 * v[r]
GradOk(st, og, z, plus, minus, den, sg, n) ==    \* plus, minus: functions of k giving the value vectors
    \A k \in 1..NZ(st.D) : LET a == plus[k]
                               b == minus[k] IN
       \A r \in 1..n : IF a[r] = NANV THEN TRUE ELSE
            LET e == ((a[r] - b[r]) * 125 * sg) \div den[r]
            IN Close(og[(r - 1) * NZ(st.D) + k], e, 3 + Abs(e) \div 100000 + Own(st, z, k) \div 20000 + (Abs(a[r]) + Abs(b[r])) \div 20000)

Ones(n) == [r \in 1..n |-> 1]
IneqBlock(st, x0, p, j) ==
    /\ ValOk(p.in[j], IneqAt(st, x0, p.z), Ones(st.D.ni), 1)
    /\ (p.fl % 2 = 1) => GradOk(st, p.ing[j], p.z,
            [k \in 1..NZ(st.D) |-> IneqAt(st, x0, Shift(p.z, k, 2))], [k \in 1..NZ(st.D) |-> IneqAt(st, x0, Shift(p.z, k, -2))],
            Ones(st.D.ni), 1, st.D.ni)
EqBlock(st, x0, p, j) ==
    \E sg \in {1, -1} :
    /\ ValOk(p.eq[j], EqAt(st, x0, p.z), Ones(st.D.ne), sg)
    /\ (p.fl % 2 = 1) => GradOk(st, p.eqg[j], p.z,
            [k \in 1..NZ(st.D) |-> EqAt(st, x0, Shift(p.z, k, 2))], [k \in 1..NZ(st.D) |-> EqAt(st, x0, Shift(p.z, k, -2))],
            Ones(st.D.ne), sg, st.D.ne)
ModBlock(st, x0, p, j) ==
    LET n == st.D.ph * st.D.nx
        den == [r \in 1..n |-> st.sx[((r - 1) % st.D.nx) + 1]] IN
    \E sg \in {1, -1} :
    /\ ValOk(p.eq[j], ModAt(st, x0, p.z), den, sg)
    /\ (p.fl % 2 = 1) => GradOk(st, p.eqg[j], p.z,
            [k \in 1..NZ(st.D) |-> ModAt(st, x0, Shift(p.z, k, 2))], [k \in 1..NZ(st.D) |-> ModAt(st, x0, Shift(p.z, k, -2))],
            den, sg, n)

\* ---- registrations, as bags
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Count(a, a[k]) = Count(b, a[k])

\* ---- trajectories the callbacks received: [kind, X rows 0..ph, U rows, (Y rows), (slack)]
Flat(f, n, h) == [r \in 1..(n * (h + 1)) |-> f[(r - 1) \div n][((r - 1) % n) + 1]]
CallOk(st, x0, p, c) ==
    LET t == Tr(st, x0, p.z)
        D == st.D
        xu == Flat(t.X, D.nx, D.ph) \o Flat(t.U, D.nu, D.ph)
    IN IF c[1] = 3 THEN Tail(c) = xu ELSE Tail(c) = xu \o Flat(t.Y, D.ny, D.ph) \o <<t.E>>

\* ---- the user function of kind thr throws in some callback
ThrowSeen(st, kind) == \/ kind = 1 /\ HasObj(st)
                       \/ kind = 2 /\ HasState(st)
                       \/ kind = 3 /\ st.fo > 0 /\ (HasObj(st) \/ (HasIneq(st) /\ st.D.ni > 0))
                       \/ kind = 4 /\ HasIneq(st) /\ st.D.ni > 0
                       \/ kind = 5 /\ HasEq(st) /\ st.D.ne > 0

ResOk(st, r) == /\ r[1] = st.res.st /\ r[2] = st.res.code /\ r[3] = st.res.cost /\ r[4] = st.res.feas
                /\ Len(r) = 5 + st.D.nu
CmdOk(st, r) == Len(r) = 5 + st.D.nu /\ \A j \in 1..st.D.nu : r[5 + j] = st.cmd[j]
Rows(f, D, n) == [k \in 1..(D.ph + 1) |-> IF f = <<>> THEN [i \in 1..n |-> 0] ELSE f[k - 1]]
SeqOk(st, q) == LET D == st.D
                    f(n) == IF st.seq = <<>> THEN <<>> ELSE st.seq[n] IN
    /\ q.x = Rows(f("X"), D, D.nx)
    /\ q.u = Rows(f("U"), D, D.nu)
    /\ q.y = Rows(f("Y"), D, D.ny)

\* ---- statistics (milliseconds)
Durs(st) == [k \in 1..Len(st.log) |-> st.log[k][1]]
StatsOk(st, e) ==
    LET n == Len(st.log)
        d == Durs(st)
        tot == SumTo(d, n)
        dq == [k \in 1..n |-> d[k] \div 250]             \* quarters of a second
        tq == SumTo(dq, n)
        sq == SumTo([k \in 1..n |-> dq[k] * dq[k]], n)
        var == n * sq - tq * tq                           \* n^2 var, in (1/4 s)^2
        \* sv: the deviation in ms, so (sv/25)^2 is 100 times the variance in (1/4 s)^2
        StdOk(sv) == IF n <= 1 THEN sv = 0
                     ELSE /\ ((Max2(sv - 1, 0) * Max2(sv - 1, 0)) \div 625) * n * n <= 100 * var
                          /\ (((sv + 1) * (sv + 1)) \div 625 + 1) * n * n >= 100 * var
        cnt(s) == Cardinality({k \in 1..n : st.log[k][2] = s})
        numOk(min, max, avg, sd, tt, nn) ==
            /\ nn = n /\ Abs(tt - tot) <= 1
            /\ n > 0 => /\ \E k \in 1..n : min = d[k]
                        /\ \A k \in 1..n : min <= d[k] /\ max >= d[k]
                        /\ \E k \in 1..n : max = d[k]
                        /\ Abs(avg * n - tot) <= n
                        /\ StdOk(sd)
    IN /\ numOk(e.min, e.max, e.avg, e.std, e.tot, e.num)
       /\ \A s \in 0..4 : e.st[s + 1] = cnt(s)
       /\ "ptxt" \in DOMAIN e =>
            /\ n > 0 => numOk(e.ptxt[1], e.ptxt[2], e.ptxt[3], e.ptxt[4], e.ptxt[5], e.ptxt[6])
            /\ e.ptxt[6] = n
            /\ \A s \in 0..4 : IF cnt(s) = 0 THEN e.pct[s + 1] \in {-1, 0}
                               ELSE Abs(e.pct[s + 1] * n - 10000 * cnt(s)) <= n

\* ---- what is wrong with event e in state st (st is the state before, t after)
CheckL(prop, name, ok) == IF ~In(prop) THEN {} ELSE IF ok THEN {} ELSE {<<prop, name>>}

BadOpt(st, t, e, pt) ==
    LET D == st.D
        called == e.n > 0
        P == IF called THEN e.probes ELSE <<>>
        done == {k \in 1..Len(P) : P[k].stop = 0}
        x0 == e.x0
    IN
    CheckL("C07", "optimize must return", e.thrown = 0)
    \cup CheckL("C09", "the solver runs once per call", e.n = 1)
    \cup (IF ~called THEN {} ELSE
       CheckL("C01", "state bounds", \A k \in 1..(D.ph * D.nx) : e.lb[k] = LowerOf(st, k) /\ e.ub[k] = UpperOf(st, k))
       \cup CheckL("C01", "input bounds", \A k \in (D.ph * D.nx + 1)..(NZ(D) - 1) : e.lb[k] = LowerOf(st, k) /\ e.ub[k] = UpperOf(st, k))
       \cup CheckL("C02", "steps covered", \A k \in 1..(NZ(D) - 1) : e.lb[k] = DivE(MulE(st.lb[k], 8), ScaleOf(st, k)) /\ e.ub[k] = DivE(MulE(st.ub[k], 8), ScaleOf(st, k)))
       \cup CheckL("C09", "slack bounds", e.lb[NZ(D)] = LowerOf(st, NZ(D)) /\ e.ub[NZ(D)] = UpperOf(st, NZ(D)))
       \cup CheckL("C09", "tolerances and limits",
              /\ Dis(e.par[1]) = st.par.fr /\ Dis(e.par[2]) = st.par.xr /\ Dis(e.par[3]) = st.par.fa
              /\ Dis(e.par[4]) = st.par.me /\ Dis(e.par[5]) = st.par.mt /\ e.par[6] = -INFV
              /\ \A k \in 7..Len(e.par) : Dis(e.par[k]) = st.par.xa)
       \cup CheckL("C09", "objective registered", e.hasobj = (IF HasObj(st) THEN 1 ELSE 0))
       \cup CheckL("C09", "equality registrations", SameBag(e.neq, EqRegs(st)))
       \cup CheckL("C09", "inequality registrations", SameBag(e.nin, InRegs(st)))
       \cup CheckL("C08", "initial guess", e.st = GuessOf(st, PlanFor(st, e.x0, e.u0)))
       \cup CheckL("C03", "trajectories given to the user functions",
              \A k \in 1..Len(P) : \A c \in 1..Len(P[k].calls) : CallOk(st, x0, P[k], P[k].calls[c]))
       \cup CheckL("C06", "objective value", HasObj(st) => \A k \in done : ObjValOk(st, x0, P[k]))
       \cup CheckL("C06", "objective gradient", HasObj(st) => \A k \in done : P[k].fl % 2 = 1 => ObjGradOk(st, x0, P[k]))
       \cup CheckL("C05", "inequality", (HasIneq(st) /\ D.ni > 0) => \A k \in done : \E j \in 1..Len(P[k].in) : IneqBlock(st, x0, P[k], j))
       \cup CheckL("C05", "equality", (HasEq(st) /\ D.ne > 0) => \A k \in done : \E j \in 1..Len(P[k].eq) : EqBlock(st, x0, P[k], j))
       \cup CheckL("C04", "model", HasState(st) => \A k \in done : \E j \in 1..Len(P[k].eq) : ModBlock(st, x0, P[k], j))
       \cup CheckL("C09", "only the latest functions", \A k \in done :
              /\ \A j \in 1..Len(P[k].in) : ValOk(P[k].in[j], IneqAt(st, x0, P[k].z), Ones(D.ni), 1)
              /\ \A j \in 1..Len(P[k].eq) : \E sg \in {1, -1} :
                    \/ HasState(st) /\ ValOk(P[k].eq[j], ModAt(st, x0, P[k].z), [r \in 1..(D.ph * D.nx) |-> st.sx[((r - 1) % D.nx) + 1]], sg)
                    \/ HasEq(st) /\ ValOk(P[k].eq[j], EqAt(st, x0, P[k].z), Ones(D.ne), sg))
       \cup CheckL("C07", "a throwing user function stops the solver",
              (e.thr[1] > 0 /\ e.thr[2] > 0 /\ e.thr[2] <= Len(P) /\ ThrowSeen(st, e.thr[1])) => P[e.thr[2]].stop = 1))
    \cup (IF e.thrown # 0 THEN {} ELSE
       CheckL("C07", "result", ResOk(t, e.res))
       \cup CheckL("C07", "failed solve: command kept, message, zero sequence",
              t.res.code = -1 => CmdOk(t, e.res) /\ e.res[5] = 1 /\ SeqOk(t, e.seq))
       \cup CheckL("C07", "last result", e.last = e.res)
       \cup CheckL("C03", "command", t.res.code # -1 => CmdOk(t, e.res))
       \cup CheckL("C03", "sequence", t.res.code # -1 => SeqOk(t, e.seq)))

Bad(st, t, e) ==
    CASE e.op = "opt" -> BadOpt(st, t, e, FALSE)
      [] e.op \in {"xb", "ub", "xbm", "ubm"} -> CheckL("C02", "returned value", e.r = NlSet(st, e.op, e.a)[2])
      [] e.op \in {"yb", "ybm"} -> CheckL("C02", "output bounds are refused", e.r # 1)
      [] e.op = "last" -> CheckL("C07", "last result", ResOk(st, e.res) /\ CmdOk(st, e.res) /\ SeqOk(st, e.seq))
      [] e.op = "stats" -> CheckL("C18", "statistics", StatsOk(st, e))
      [] e.op \in {"state", "out", "obj", "ineq", "eq", "sx", "su", "ts", "par"} -> CheckL("C09", "call accepted", e.r = 1)
      [] OTHER -> {}

Dm(a) == [nx |-> a[3], nu |-> a[4], ny |-> a[5], ph |-> a[6], ch |-> a[7], ni |-> a[8], ne |-> a[9]]
Upd(f, i, v) == [k \in DOMAIN f \cup {i} |-> IF k = i THEN v ELSE f[k]]

After(st, e) ==
    IF e.op = "opt" THEN
        NlSolve(st, e.x0, e.u0, IF e.n > 0 THEN e.acc ELSE -1, e.f, e.rz,
                e.thr[1] > 0 /\ e.thr[2] = 0 /\ PostThrows(st, e.thr[1]), IF e.n > 0 THEN e.adv ELSE 0)
    ELSE IF e.op \in {"last", "stats", "clk"} THEN st
    ELSE NlSet(st, e.op, e.a)[1]

Init == l = 1 /\ cs = <<>>
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.op = "new" THEN cs' = Upd(cs, e.i, NlInit(Dm(e.a)))
       ELSE IF e.op = "free" THEN cs' = [k \in DOMAIN cs \ {e.i} |-> cs[k]]
       ELSE IF e.op = "end" THEN cs' = cs
       ELSE LET st == cs[e.i]
                t == TLCEval(After(st, e))
                bad == TLCEval(Bad(st, t, e))
            IN /\ cs' = [cs EXCEPT ![e.i] = t]
               /\ bad # {} => PrintT(<<"MISMATCH", l, bad>>)
Spec == Init /\ [][Next]_vars

\* every event was consumed, and the driver got to its end
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].op = "end"
=============================================================================
