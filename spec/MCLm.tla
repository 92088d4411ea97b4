--------------------------------- MODULE MCLm ---------------------------------
(* Exhaustive checks of the linear controller's specification.                    *)
(* Groups "slices" and "life": every history of at most Depth calls; invariants    *)
(* restate the properties over the history, independently of how Lm keeps state.    *)
(* Group "qp": every point z of a grid, for configurations with one and two moves:  *)
(* the program Lm builds means what the controller promises (trajectories, limits,   *)
(* cost), written here directly over states, inputs and outputs.                     *)
EXTENDS Lm

CONSTANTS Depth, PH, CH, Group
Dim == [nx |-> 1, nu |-> 1, ndu |-> 1, ny |-> 1, ph |-> PH, ch |-> CH]
VARIABLES st, h
vars == <<st, h>>

Sl(n) == {<<s, t>> : s \in -1..n, t \in -1..(n + 1)}
SliceCalls ==
    {<<o, sl \o <<v, v + 4>>>> : o \in {"xb", "yb"}, sl \in Sl(PH), v \in {-2}}
    \cup {<<"ub", sl \o <<v, v + 4>>>> : sl \in Sl(CH), v \in {-3, 1}}
    \cup {<<"sc", sl \o <<-1, 5, 2, 3>>>> : sl \in Sl(PH)}
    \cup {<<"sci", <<k, -1, 6, 1, -2>>>> : k \in 0..(PH - 1)}
    \cup {<<o, sl \o <<1, 2, 3>>>> : o \in {"w", "ref"}, sl \in Sl(PH)}
    \cup {<<"ext", sl \o <<v>>>> : sl \in Sl(PH), v \in {4}}
    \cup {<<"xbm", [k \in 1..PH |-> -k] \o [k \in 1..PH |-> k]>>, <<"ybm", [k \in 1..PH |-> -k] \o [k \in 1..PH |-> INFV]>>,
          <<"ubm", [k \in 1..CH |-> -k] \o [k \in 1..CH |-> k]>>, <<"extm", [k \in 1..PH |-> k + 3]>>,
          <<"refm", [k \in 1..(3 * PH) |-> k]>>, <<"wm", [k \in 1..(3 * PH) |-> k + 1]>>}
LifeCalls == {<<"par", <<1, 1, 1, 1, 1, 1, 0, 1, 1, 10, 0, w>>>> : w \in {0, 1}}
    \cup {<<"ws", <<a, b>>>> : a \in {0, 17}, b \in {0, 19}} \cup {<<"unsup", <<0>>>>, <<"reset", <<>>>>}
Calls == IF Group = "slices" THEN SliceCalls ELSE LifeCalls
Endings == IF Group = "life" THEN {<<refused, code, seed>> : refused \in BOOLEAN, code \in {1, 2, -2, -3, 4, -6, -7}, seed \in {1, 6}} ELSE {}

Configs ==   \* A B C Bd Dd, weights y u du, references, disturbances, bounds
    {[m |-> <<2, 1, 1>>, d |-> <<1, 1>>], [m |-> <<1, -1, 2>>, d |-> <<-2, 1>>], [m |-> <<0, 2, -1>>, d |-> <<0, 0>>]}
Grid == -1..1
Init == IF Group = "qp" THEN
            /\ \E c \in Configs : st =
                LET s1 == LmSet(LmInit(Dim), "model", c.m)[1]
                    s2 == LmSet(s1, "dist", c.d)[1]
                    s3 == LmSet(s2, "wm", [k \in 1..(3 * PH) |-> (k % 4) + 1])[1]
                    s4 == LmSet(s3, "refm", [k \in 1..(3 * PH) |-> ((k * k) % 5) - 2])[1]
                    s5 == LmSet(s4, "extm", [k \in 1..PH |-> k - 2])[1]
                    s6 == LmSet(s5, "xbm", [k \in 1..PH |-> -(k % 2)] \o [k \in 1..PH |-> k % 3])[1]
                    s7 == LmSet(s6, "ybm", [k \in 1..PH |-> -k] \o [k \in 1..PH |-> INFV])[1]
                    s8 == LmSet(s7, "ubm", [k \in 1..CH |-> -1] \o [k \in 1..CH |-> k - 1])[1]
                    s9 == LmSet(s8, "sc", <<0, 1, -2, 1, 1, 2>>)[1]
                IN LmSet(s9, "sci", <<PH - 1, -1, 2, 2, -1>>)[1]
            /\ h \in [1..NV(Dim) -> Grid]
        ELSE st = LmInit(Dim) /\ h = <<>>
Call == \E c \in Calls : LET r == LmSet(st, c[1], c[2]) IN st' = r[1] /\ h' = Append(h, <<c[1], c[2], r[2]>>)
Opt == \E e \in Endings : /\ st' = LmSolve(st, e[1], e[2], 7, e[3], 250, CHOOSE s \in (IF e[1] THEN {3} ELSE StatusOf(e[2])) : TRUE)
                          /\ h' = Append(h, <<"opt", e>>)
Next == Group # "qp" /\ Len(h) < Depth /\ (Call \/ Opt)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- histories
Last(S) == IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
Hor0(o) == IF o = "ub" THEN CH ELSE PH
SliceValidated == Group = "slices" => \A k \in 1..Len(h) : h[k][1] \in {"xb", "ub", "yb", "sc", "w", "ref", "ext"} =>
    LET s == h[k][2][1]
        t == h[k][2][2] IN
    h[k][3] = (IF (s = -1 /\ t = -1) \/ (s >= 0 /\ t <= Hor0(h[k][1]) /\ t > s) THEN 1 ELSE 0)
Covers(c, what, mat, i) ==
    \/ /\ c[1] = what /\ c[3] = 1
       /\ (c[2][1] = -1 \/ (c[2][1] <= i /\ i < c[2][2]))
    \/ c[1] = mat
    \/ what = "sc" /\ c[1] = "sci" /\ c[2][1] = i
Setter(what, mat, i) == Last({k \in 1..Len(h) : Covers(h[k], what, mat, i)})
\* value number j (from 1, out of w one after the other) of call k for horizon index i, horizon n
Value(k, i, j, n) == IF h[k][1] \in {"xbm", "ubm", "ybm", "wm", "refm", "extm"} THEN h[k][2][(j - 1) * n + i + 1]
                     ELSE IF h[k][1] = "sci" THEN h[k][2][1 + j] ELSE h[k][2][2 + j]
Is(v, what, mat, i, j, n, default) == LET k == Setter(what, mat, i) IN v = (IF k = 0 THEN default ELSE Value(k, i, j, n))
LastWrite == Group = "slices" =>
    /\ \A i \in 0..(PH - 1) :
        /\ Is(st.xl[i][1], "xb", "xbm", i, 1, PH, -INFV) /\ Is(st.xh[i][1], "xb", "xbm", i, 2, PH, INFV)
        /\ Is(st.yl[i][1], "yb", "ybm", i, 1, PH, -INFV) /\ Is(st.yh[i][1], "yb", "ybm", i, 2, PH, INFV)
        /\ Is(st.sc[i].lo, "sc", "-", i, 1, PH, -INFV) /\ Is(st.sc[i].hi, "sc", "-", i, 2, PH, INFV)
        /\ Is(st.sc[i].X[1], "sc", "-", i, 3, PH, 0) /\ Is(st.sc[i].U[1], "sc", "-", i, 4, PH, 0)
        /\ Is(st.wy[i][1], "w", "wm", i, 1, PH, 0) /\ Is(st.wu[i][1], "w", "wm", i, 2, PH, 0) /\ Is(st.wd[i][1], "w", "wm", i, 3, PH, 0)
        /\ Is(st.ry[i][1], "ref", "refm", i, 1, PH, 0) /\ Is(st.ru[i][1], "ref", "refm", i, 2, PH, 0) /\ Is(st.rd[i][1], "ref", "refm", i, 3, PH, 0)
        /\ Is(st.d[i][1], "ext", "extm", i, 1, PH, 0)
    /\ \A i \in 0..(CH - 1) : Is(st.ul[i][1], "ub", "ubm", i, 1, CH, -INFV) /\ Is(st.uh[i][1], "ub", "ubm", i, 2, CH, INFV)
\* the inputs after the control horizon follow its last bounds
InputTail == Group = "slices" => \A k \in 0..PH : \E r \in InRowsOf(st) :
    r = <<{<<PU(Dim, k, 1), 1>>}, st.ul[Min2(Max2(k - 1, 0), CH - 1)][1], st.uh[Min2(Max2(k - 1, 0), CH - 1)][1]>>

\* a solve is good when the solver ends with a vector
Good(k) == h[k][1] = "opt" /\ ~h[k][2][1] /\ h[k][2][2] \in {1, 2, -2, -6}
LastGood == Last({k \in 1..Len(h) : Good(k)})
LastWs == Last({k \in 1..Len(h) : h[k][1] = "ws"})
Life == Group = "life" =>
    /\ st.cmd = (IF LastGood = 0 THEN <<0>> ELSE <<Zof(h[LastGood][2][3], PU(Dim, 1, 1))>>)
    /\ IF LastWs > LastGood THEN st.wx = h[LastWs][2][1] /\ st.wz = h[LastWs][2][2]
       ELSE IF LastGood > 0 THEN st.wx = h[LastGood][2][3] /\ st.wz = st.wx + 5 ELSE st.wx = 0 /\ st.wz = 0
    /\ LET k == Last({j \in 1..Len(h) : h[j][1] = "opt"}) IN k > 0 =>
        /\ st.res.feas = (IF Good(k) /\ h[k][2][2] # -6 THEN 1 ELSE 0)
        /\ (st.res.st = 0) = (Good(k) /\ h[k][2][2] \in {1, 2})
        /\ (st.res.st = 2) = (~h[k][2][1] /\ h[k][2][2] \in {-3, 4})
        /\ ~Good(k) => st.seq = <<>> /\ st.res.cost = INFV
        /\ Good(k) => st.seq.U[PH + 1] = st.seq.U[PH] /\ st.seq.U[1] = st.cmd
    /\ Warm(st) = (LET k == Last({j \in 1..Len(h) : h[j][1] = "par"}) IN k > 0 /\ h[k][2][12] = 1)
    /\ Len(st.log) = Cardinality({k \in 1..Len(h) : h[k][1] = "opt" /\ \A j \in k..Len(h) : h[j][1] # "reset"})

\* ---------------------------------------------------------------- the program means what it promises
zx(k) == h[PX(Dim, k, 1)]
zu(k) == h[PU(Dim, k + 1, 1)]           \* input applied at step k, from -1
zd(k) == h[PD(Dim, k, 1)]
dk(k) == st.d[Min2(k, PH - 1)][1]
zy(k) == st.C[1][1] * zx(k) + st.Dd[1][1] * dk(k)
RowVal(r) == SumTo([i \in 1..NV(Dim) |-> LET S == {c \in r[1] : c[1] = i} IN IF S = {} THEN 0 ELSE h[i] * (CHOOSE c \in S : TRUE)[2]], NV(Dim))
Holds(R) == \A r \in R : r[2] <= RowVal(r) /\ RowVal(r) <= r[3]
Trajectory(x0, u0) ==
    /\ zx(0) = x0 /\ zu(-1) = u0
    /\ \A k \in 0..(PH - 1) : /\ zu(k) = zu(k - 1) + zd(k)
                              /\ zx(k + 1) = st.A[1][1] * zx(k) + st.B[1][1] * zu(k) + st.Bd[1][1] * dk(k)
                              /\ k >= CH => zd(k) = 0
Within(v, lo, hi) == lo <= v /\ v <= hi
Limits ==
    /\ \A k \in 1..PH : Within(zx(k), st.xl[k - 1][1], st.xh[k - 1][1]) /\ Within(zy(k), st.yl[k - 1][1], st.yh[k - 1][1])
    /\ Within(zx(0), st.xl[0][1], st.xh[0][1]) /\ Within(zy(0), st.yl[0][1], st.yh[0][1])
    /\ \A k \in -1..(PH - 1) : LET j == Min2(Max2(k, 0), CH - 1) IN Within(zu(k), st.ul[j][1], st.uh[j][1])
    /\ \A k \in 0..PH : LET s == st.sc[Max2(k - 1, 0)] IN Within(s.X[1] * zx(k) + s.U[1] * zu(Min2(k, PH - 1)), s.lo, s.hi)
\* twice the cost, for the point z and for the origin
Sq(v) == v * v
Cost2 == LET at(k) == Max2(k - 1, 0) IN
    SumTo([k \in 1..(PH + 1) |-> st.wy[at(k - 1)][1] * Sq(zy(k - 1) - st.ry[at(k - 1)][1]) + st.wu[at(k - 1)][1] * Sq(zu(k - 2) - st.ru[at(k - 1)][1])], PH + 1)
    + SumTo([k \in 1..PH |-> st.wd[k - 1][1] * Sq(zd(k - 1) - st.rd[k - 1][1])], PH)
Cost20 == LET at(k) == Max2(k - 1, 0) IN
    SumTo([k \in 1..(PH + 1) |-> st.wy[at(k - 1)][1] * Sq(st.Dd[1][1] * dk(k - 1) - st.ry[at(k - 1)][1]) + st.wu[at(k - 1)][1] * Sq(st.ru[at(k - 1)][1])], PH + 1)
    + SumTo([k \in 1..PH |-> st.wd[k - 1][1] * Sq(st.rd[k - 1][1])], PH)
RECURSIVE SumV(_)
SumV(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + SumV(S \ {x})
Prog2 == LET Q == QOf(st) IN
         SumV({<<e, e[3] * h[e[1]] * h[e[2]] * (IF e[1] = e[2] THEN 1 ELSE 2)>> : e \in POf(st)}) + 2 * SumTo([i \in 1..NV(Dim) |-> Q[i] * h[i]], NV(Dim))
QpTrajectories == Group = "qp" => \A x0 \in {0, 1}, u0 \in {-1, 0} : Holds(EqRows(st, <<x0>>, <<u0>>)) = Trajectory(x0, u0)
QpLimits == Group = "qp" => Holds(InRowsOf(st)) = Limits
QpUseful == Group = "qp" => Holds(InRowsOf(st)) = Holds(Useful(InRowsOf(st)))
QpCost == Group = "qp" => Cost2 - Cost20 = Prog2
=============================================================================
