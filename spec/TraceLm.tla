------------------------------- MODULE TraceLm -------------------------------
(* Trace validation for the linear controller: the trace recorded from the real   *)
(* library (harness/lm_main.cpp, with a recording solver) is stepped through the   *)
(* actions of Lm; what reached the solver and what came back is compared with Lm.  *)
EXTENDS Lm, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
In(p) == Focus = p \/ Focus = "ALL"

VARIABLES l, cs
vars == <<l, cs>>

\* With units, every quantity of the run is measured in a unit of its own (a power of two) and the recording divides the
\* rows by theirs: rows are compared up to a power of two.
Units == IOEnv.UNITS # "0"
Even(r) == (\A c \in r[1] : c[2] % 2 = 0) /\ (IsNum(r[2]) => r[2] % 2 = 0) /\ (IsNum(r[3]) => r[3] % 2 = 0)
           /\ (r[1] # {} \/ (IsNum(r[2]) /\ r[2] # 0) \/ (IsNum(r[3]) /\ r[3] # 0))
Half(v) == IF IsNum(v) THEN v \div 2 ELSE v
RECURSIVE Odd(_)
Odd(r) == IF Even(r) THEN Odd(<<{<<c[1], c[2] \div 2>> : c \in r[1]}, Half(r[2]), Half(r[3])>>) ELSE r
Rows(S) == LET u == TLCEval(Useful(S)) IN IF Units THEN {TLCEval(Odd(r)) : r \in u} ELSE u
\* a recorded row <<lower, upper, position, coefficient, ...>>
RowOf(r) == <<{<<r[2 * k + 1], r[2 * k + 2]>> : k \in 1..((Len(r) - 2) \div 2)}, r[1], r[2]>>
Obs(e) == Rows({RowOf(e.rows[k]) : k \in 1..Len(e.rows)})
IsEq(r) == IsNum(r[2]) /\ r[2] = r[3]

\* documented defaults, in the units of the trace (millionths; seconds/8)
Default == <<1600000, 1, 100, 100, 1000, 1000, 0, 1, 1, 100, 0, 0>>
Expected(st) == IF st.par = <<>> THEN Default
                ELSE [k \in 1..12 |-> IF k <= 6 THEN st.par[k] * 1000 ELSE st.par[k]]
Vector(s, n) == IF s = 0 THEN <<>> ELSE [k \in 1..n |-> Zof(s, k)]

CmdOk(st, r) == /\ Len(r) = 4 + st.D.nu
                /\ \A j \in 1..st.D.nu : r[4 + j] = st.cmd[j]
SeqOk(st, q) == LET D == st.D
                    f(n, w) == IF st.seq = <<>> THEN [k \in 1..(D.ph + 1) |-> [i \in 1..w |-> 0]] ELSE st.seq[n] IN
                /\ q.x = f("X", D.nx) /\ q.u = f("U", D.nu) /\ q.y = f("Y", D.ny)
WsOk(st, e) == e.gx = Vector(st.wx, NV(st.D)) /\ e.gy = Vector(st.wz, NR(st.D))

CheckL(prop, name, ok) == IF ~In(prop) THEN {} ELSE IF ok THEN {} ELSE {<<prop, name>>}

BadRows(st, e) ==
    LET want == TLCEval(Rows(EqRows(st, e.x0, e.u0)))
        lim == TLCEval(Rows(InRowsOf(st)))
        obs == TLCEval(Obs(e))
        extra == (obs \ want) \ lim IN
    CheckL("C10", "dynamics, initial values, moves", want \subseteq obs)
    \cup CheckL("C10", "no other equality", \A r \in extra : ~IsEq(r))
    \cup CheckL("C11", "bounds and scalar constraints", lim \subseteq obs)
    \cup CheckL("C11", "no other limit", \A r \in extra : IsEq(r))

BadOpt(st, t, e, n) ==
    LET ref == e.refused = 1
        warm == Warm(st) /\ st.wx > 0 /\ st.wz > 0 /\ ~ref
        D == st.D IN
    CheckL("C13", "optimize must return", e.thrown = 0)
    \cup CheckL("C14", "one set-up and one solve", e.nset = 1 /\ e.nok = (IF ref THEN 0 ELSE 1) /\ e.nsolve = e.nok)
    \cup CheckL("C14", "matrices in the solver's format", e.wf = 1)
    \cup CheckL("C14", "only the live workspace is used", e.bad = 0 /\ e.live <= n)
    \cup (IF e.nset = 0 THEN {} ELSE
       CheckL("C14", "settings", e.par = Expected(st))
       \cup CheckL("C14", "warm start", e.nwarm = (IF warm THEN 1 ELSE 0)
                /\ (warm => e.wx = Vector(st.wx, NV(D)) /\ e.wy = Vector(st.wz, NR(D))))
       \cup CheckL("C10", "size of the program", e.nv = NV(D))
       \cup (IF st.mod /\ (In("C10") \/ In("C11")) THEN BadRows(st, e) ELSE {})
       \cup CheckL("C02", "steps covered", (st.mod /\ In("C02")) =>
              LET lim == TLCEval(Rows(InRowsOf(st)))
                  obs == TLCEval(Obs(e)) IN
              /\ lim \subseteq obs
              /\ \A r \in (obs \ TLCEval(Rows(EqRows(st, e.x0, e.u0)))) \ lim : IsEq(r)
              /\ {e.P[k] : k \in 1..Len(e.P)} = POf(st)
              /\ e.q = QOf(st))
       \cup CheckL("C12", "quadratic term", (st.mod /\ In("C12")) => {e.P[k] : k \in 1..Len(e.P)} = POf(st) /\ Len(e.P) = Cardinality(POf(st)))
       \cup CheckL("C12", "linear term", (st.mod /\ In("C12")) => e.q = QOf(st)))
    \cup (IF e.thrown # 0 THEN {} ELSE
       CheckL("C13", "status", e.res[1] \in (IF ref THEN {3} ELSE StatusOf(e.pl[2])))
       \cup CheckL("C13", "cost", e.res[3] = t.res.cost)
       \cup CheckL("C13", "feasibility", e.res[4] = t.res.feas)
       \cup CheckL("C13", "solver code", (~ref /\ HasVector(e.pl[2])) => e.res[2] = e.pl[2])
       \cup CheckL("C13", "command", CmdOk(t, e.res))
       \cup CheckL("C13", "sequence", SeqOk(t, e.seq))
       \cup CheckL("C13", "last result", e.last = e.res)
       \cup CheckL("C14", "stored vectors", WsOk(t, e)))

Durs(st) == [k \in 1..Len(st.log) |-> st.log[k][1]]
StatsOk(st, e) == /\ e.num = Len(st.log)
                  /\ Abs(e.tot - SumTo(Durs(st), Len(st.log))) <= 1
                  /\ \A s \in 0..4 : e.st[s + 1] = Cardinality({k \in 1..Len(st.log) : st.log[k][2] = s})

Bad(st, t, e, n) ==
    CASE e.op = "opt" -> BadOpt(st, t, e, n)
      [] e.op = "last" -> CheckL("C13", "last result", /\ e.res[1] = st.res.st /\ e.res[3] = st.res.cost /\ e.res[4] = st.res.feas
                                                       /\ CmdOk(st, e.res) /\ SeqOk(st, e.seq))
                          \cup CheckL("C14", "stored vectors", WsOk(st, e))
      [] e.op = "stats" -> CheckL("C18", "statistics", StatsOk(st, e))
      [] e.op \in {"xb", "ub", "yb", "sc", "sci", "w", "ref", "ext"} -> CheckL("C02", "returned value", e.r = LmSet(st, e.op, e.a)[2])
      [] e.op \in {"xbm", "ubm", "ybm", "wm", "refm", "extm", "model", "dist"} -> CheckL("C02", "call accepted", e.r = 1)
      [] e.op \in {"par", "ws"} -> CheckL("C14", "call accepted", e.r = 1)
      [] e.op = "unsup" -> CheckL("C02", "unsupported call refused", e.r = -99)
      [] OTHER -> {}

Dm(a) == [nx |-> a[3], nu |-> a[4], ndu |-> a[5], ny |-> a[6], ph |-> a[7], ch |-> a[8]]
Upd(f, i, v) == [k \in DOMAIN f \cup {i} |-> IF k = i THEN v ELSE f[k]]

After(st, e) ==
    IF e.op = "opt" THEN LmSolve(st, e.refused = 1, e.pl[2], e.pl[3], e.pl[4], IF e.refused = 1 THEN 0 ELSE e.pl[5], IF e.thrown = 0 THEN e.res[1] ELSE 4)
    ELSE IF e.op \in {"last", "stats", "clk", "unsup"} THEN st
    ELSE LmSet(st, e.op, e.a)[1]

Init == l = 1 /\ cs = <<>>
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.op = "new" THEN cs' = Upd(cs, e.i, LmInit(Dm(e.a)))
       ELSE IF e.op = "free" THEN
            /\ cs' = [k \in DOMAIN cs \ {e.i} |-> cs[k]]
            /\ LET bad == CheckL("C14", "release", e.bad = 0 /\ e.live <= Cardinality(DOMAIN cs) - 1) IN bad # {} => PrintT(<<"MISMATCH", l, bad>>)
       ELSE IF e.op = "churn" THEN
            /\ cs' = cs
            /\ LET bad == CheckL("C14", "destroyed controllers give their memory back", e.bad = 0 /\ e.grown <= 64) IN bad # {} => PrintT(<<"MISMATCH", l, bad>>)
       ELSE IF e.op = "end" THEN
            /\ cs' = cs
            /\ LET bad == CheckL("C14", "everything released once", e.bad = 0 /\ e.live = 0 /\ e.mem = 0) IN bad # {} => PrintT(<<"MISMATCH", l, bad>>)
       ELSE LET st == cs[e.i]
                t == TLCEval(After(st, e))
                bad == TLCEval(Bad(st, t, e, Cardinality(DOMAIN cs)))
            IN /\ cs' = [cs EXCEPT ![e.i] = t]
               /\ bad # {} => PrintT(<<"MISMATCH", l, bad>>)
Spec == Init /\ [][Next]_vars

TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].op = "end"
=============================================================================
