--------------------------------- MODULE Lm ---------------------------------
(* The linear controller: configuration, the quadratic program handed to the      *)
(* solver, warm start, results.  Every quantity is an integer.                    *)
(* Decision vector: x_0, u_{-1}, x_1, u_0, ..., x_N, u_{N-1}, du_0 .. du_{N-1}.   *)
EXTENDS Enc

NV(D) == (D.ph + 1) * (D.nx + D.nu) + D.ph * D.nu
NR(D) == 2 * (D.ph + 1) * (D.nx + D.nu) + (D.ph + 1) * D.ny + D.ph * D.nu + D.ph + 1
\* positions: state i at step k, input applied before step k (u_{k-1}), move k
PX(D, k, i) == k * (D.nx + D.nu) + i
PU(D, k, j) == k * (D.nx + D.nu) + D.nx + j        \* u_{k-1}
PD(D, k, j) == (D.ph + 1) * (D.nx + D.nu) + k * D.nu + j

Zero(r, c) == [i \in 1..r |-> [j \in 1..c |-> 0]]
Hor(n, v) == [k \in 0..(n - 1) |-> v]
Cst(n, v) == [i \in 1..n |-> v]

LmInit(D) == [
    D |-> D, mod |-> FALSE,       \* a model was given
    A |-> Zero(D.nx, D.nx), B |-> Zero(D.nx, D.nu), C |-> Zero(D.ny, D.nx), Bd |-> Zero(D.nx, D.ndu), Dd |-> Zero(D.ny, D.ndu),
    xl |-> Hor(D.ph, Cst(D.nx, -INFV)), xh |-> Hor(D.ph, Cst(D.nx, INFV)),
    ul |-> Hor(D.ch, Cst(D.nu, -INFV)), uh |-> Hor(D.ch, Cst(D.nu, INFV)),
    yl |-> Hor(D.ph, Cst(D.ny, -INFV)), yh |-> Hor(D.ph, Cst(D.ny, INFV)),
    sc |-> Hor(D.ph, [lo |-> -INFV, hi |-> INFV, X |-> Cst(D.nx, 0), U |-> Cst(D.nu, 0)]),
    wy |-> Hor(D.ph, Cst(D.ny, 0)), wu |-> Hor(D.ph, Cst(D.nu, 0)), wd |-> Hor(D.ph, Cst(D.nu, 0)),
    ry |-> Hor(D.ph, Cst(D.ny, 0)), ru |-> Hor(D.ph, Cst(D.nu, 0)), rd |-> Hor(D.ph, Cst(D.nu, 0)),
    d |-> Hor(D.ph, Cst(D.ndu, 0)),
    par |-> <<>>,
    wx |-> 0, wz |-> 0,          \* numbers of the stored primal and dual vectors, 0: none
    cmd |-> Cst(D.nu, 0), res |-> [st |-> 4, cost |-> 0, feas |-> 0, code |-> 0], seq |-> <<>>, log |-> <<>>]

\* ---- setters
SliceOk(s, t, n) == (s = -1 /\ t = -1) \/ (0 <= s /\ s < t /\ t <= n)
InSlice(s, t, k) == (s = -1 /\ t = -1) \/ (s <= k /\ k < t)
Put(f, s, t, v) == [k \in DOMAIN f |-> IF InSlice(s, t, k) THEN v ELSE f[k]]
Part(a, from, n) == TLCEval([i \in 1..n |-> a[from + i]])
\* a matrix given column after column: column k (from 0) of height n starting at offset o
Cols(a, o, n, h) == TLCEval([k \in 0..(h - 1) |-> Part(a, o + k * n, n)])
MatOf(a, o, r, c) == TLCEval([i \in 1..r |-> [j \in 1..c |-> a[o + (j - 1) * r + i]]])

\* <<next state, returned value>>
LmSet(st, op, a) == LET D == st.D IN
    CASE op = "xb" -> IF SliceOk(a[1], a[2], D.ph)
                      THEN <<[st EXCEPT !.xl = Put(@, a[1], a[2], Part(a, 2, D.nx)), !.xh = Put(@, a[1], a[2], Part(a, 2 + D.nx, D.nx))], 1>>
                      ELSE <<st, 0>>
      [] op = "ub" -> IF SliceOk(a[1], a[2], D.ch)
                      THEN <<[st EXCEPT !.ul = Put(@, a[1], a[2], Part(a, 2, D.nu)), !.uh = Put(@, a[1], a[2], Part(a, 2 + D.nu, D.nu))], 1>>
                      ELSE <<st, 0>>
      [] op = "yb" -> IF SliceOk(a[1], a[2], D.ph)
                      THEN <<[st EXCEPT !.yl = Put(@, a[1], a[2], Part(a, 2, D.ny)), !.yh = Put(@, a[1], a[2], Part(a, 2 + D.ny, D.ny))], 1>>
                      ELSE <<st, 0>>
      [] op = "xbm" -> <<[st EXCEPT !.xl = Cols(a, 0, D.nx, D.ph), !.xh = Cols(a, D.nx * D.ph, D.nx, D.ph)], 1>>
      [] op = "ubm" -> <<[st EXCEPT !.ul = Cols(a, 0, D.nu, D.ch), !.uh = Cols(a, D.nu * D.ch, D.nu, D.ch)], 1>>
      [] op = "ybm" -> <<[st EXCEPT !.yl = Cols(a, 0, D.ny, D.ph), !.yh = Cols(a, D.ny * D.ph, D.ny, D.ph)], 1>>
      [] op = "sc" -> IF SliceOk(a[1], a[2], D.ph)
                      THEN <<[st EXCEPT !.sc = Put(@, a[1], a[2], [lo |-> a[3], hi |-> a[4], X |-> Part(a, 4, D.nx), U |-> Part(a, 4 + D.nx, D.nu)])], 1>>
                      ELSE <<st, 0>>
      [] op = "sci" -> IF a[1] < D.ph
                       THEN <<[st EXCEPT !.sc[a[1]] = [lo |-> a[2], hi |-> a[3], X |-> Part(a, 3, D.nx), U |-> Part(a, 3 + D.nx, D.nu)]], 1>>
                       ELSE <<st, 0>>
      [] op = "w" -> IF SliceOk(a[1], a[2], D.ph)
                     THEN <<[st EXCEPT !.wy = Put(@, a[1], a[2], Part(a, 2, D.ny)), !.wu = Put(@, a[1], a[2], Part(a, 2 + D.ny, D.nu)),
                                       !.wd = Put(@, a[1], a[2], Part(a, 2 + D.ny + D.nu, D.nu))], 1>>
                     ELSE <<st, 0>>
      [] op = "wm" -> LET o == D.ny * D.ph IN
                      <<[st EXCEPT !.wy = Cols(a, 0, D.ny, D.ph), !.wu = Cols(a, o, D.nu, D.ph), !.wd = Cols(a, o + D.nu * D.ph, D.nu, D.ph)], 1>>
      [] op = "ref" -> IF SliceOk(a[1], a[2], D.ph)
                     THEN <<[st EXCEPT !.ry = Put(@, a[1], a[2], Part(a, 2, D.ny)), !.ru = Put(@, a[1], a[2], Part(a, 2 + D.ny, D.nu)),
                                       !.rd = Put(@, a[1], a[2], Part(a, 2 + D.ny + D.nu, D.nu))], 1>>
                     ELSE <<st, 0>>
      [] op = "refm" -> LET o == D.ny * D.ph IN
                      <<[st EXCEPT !.ry = Cols(a, 0, D.ny, D.ph), !.ru = Cols(a, o, D.nu, D.ph), !.rd = Cols(a, o + D.nu * D.ph, D.nu, D.ph)], 1>>
      [] op = "ext" -> IF SliceOk(a[1], a[2], D.ph) THEN <<[st EXCEPT !.d = Put(@, a[1], a[2], Part(a, 2, D.ndu))], 1>> ELSE <<st, 0>>
      [] op = "extm" -> <<[st EXCEPT !.d = Cols(a, 0, D.ndu, D.ph)], 1>>
      [] op = "model" -> LET o == D.nx * D.nx IN
                      <<[st EXCEPT !.mod = TRUE, !.A = MatOf(a, 0, D.nx, D.nx), !.B = MatOf(a, o, D.nx, D.nu), !.C = MatOf(a, o + D.nx * D.nu, D.ny, D.nx)], 1>>
      [] op = "dist" -> <<[st EXCEPT !.Bd = MatOf(a, 0, D.nx, D.ndu), !.Dd = MatOf(a, D.nx * D.ndu, D.ny, D.ndu)], 1>>
      [] op = "par" -> <<[st EXCEPT !.par = a], 1>>
      [] op = "ws" -> <<[st EXCEPT !.wx = a[1], !.wz = a[2]], 1>>
      [] op = "unsup" -> <<st, -99>>
      [] op = "reset" -> <<[st EXCEPT !.log = <<>>], 1>>
      [] OTHER -> <<st, 1>>

\* ---- parameters; defaults as documented
Warm(st) == st.par # <<>> /\ st.par[12] = 1

\* ---- the quadratic program
Dot(f, g, n) == SumTo([i \in 1..n |-> f[i] * g[i]], n)
FeedOf(st, k) == [i \in 1..st.D.ny |-> Dot(st.Dd[i], st.d[Min2(k, st.D.ph - 1)], st.D.ndu)]     \* Dd d_k
IdxOf(k) == Max2(k - 1, 0)                          \* horizon index that governs step k
UIdx(st, k) == Min2(IdxOf(k), st.D.ch - 1)          \* the same for input bounds

\* a row: <<set of <<position, coefficient>>, lower, upper>>, normalised so that the first coefficient is positive
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Norm(r) == IF r[1] = {} THEN r
           ELSE LET p == Min({c[1] : c \in r[1]})
                    v == (CHOOSE c \in r[1] : c[1] = p)[2] IN
                IF v > 0 THEN r ELSE <<{<<c[1], -c[2]>> : c \in r[1]}, -r[3], -r[2]>>
Trivial(r) == \/ r[2] = -INFV /\ r[3] = INFV
              \/ r[1] = {} /\ r[2] <= 0 /\ 0 <= r[3]
Useful(R) == {r \in {TLCEval(Norm(q)) : q \in R} : ~Trivial(r)}
NonZero(S) == {c \in S : c[2] # 0}

\* equality part (state of the system over the horizon)
EqRows(st, x0, u0) == LET D == st.D IN
    {<<{<<PX(D, 0, i), 1>>}, x0[i], x0[i]>> : i \in 1..D.nx}
    \cup {<<{<<PU(D, 0, j), 1>>}, u0[j], u0[j]>> : j \in 1..D.nu}
    \cup {<<{<<PU(D, k, j), 1>>, <<PD(D, k, j), 1>>, <<PU(D, k + 1, j), -1>>}, 0, 0>> : k \in 0..(D.ph - 1), j \in 1..D.nu}
    \cup {LET off == -Dot(st.Bd[i], st.d[k], D.ndu) IN
          <<NonZero({<<PX(D, k, j), st.A[i][j]>> : j \in 1..D.nx} \cup {<<PU(D, k, j), st.B[i][j]>> : j \in 1..D.nu}
                    \cup {<<PD(D, k, j), st.B[i][j]>> : j \in 1..D.nu} \cup {<<PX(D, k + 1, i), -1>>}), off, off>>
          : k \in 0..(D.ph - 1), i \in 1..D.nx}
    \cup {<<{<<PD(D, k, j), 1>>}, 0, 0>> : k \in D.ch..(D.ph - 1), j \in 1..D.nu}

Sub(v, c) == IF IsNum(v) THEN v - c ELSE v
InRowsOf(st) == LET D == st.D IN
    {<<{<<PX(D, k, i), 1>>}, st.xl[IdxOf(k)][i], st.xh[IdxOf(k)][i]>> : k \in 0..D.ph, i \in 1..D.nx}
    \cup {<<{<<PU(D, k, j), 1>>}, st.ul[UIdx(st, k)][j], st.uh[UIdx(st, k)][j]>> : k \in 0..D.ph, j \in 1..D.nu}
    \cup {LET f == FeedOf(st, k) IN
          <<NonZero({<<PX(D, k, j), st.C[i][j]>> : j \in 1..D.nx}), Sub(st.yl[IdxOf(k)][i], f[i]), Sub(st.yh[IdxOf(k)][i], f[i])>>
          : k \in 0..D.ph, i \in 1..D.ny}
    \cup {LET s == st.sc[IdxOf(k)] IN
          <<NonZero({<<PX(D, k, i), s.X[i]>> : i \in 1..D.nx} \cup {<<PU(D, Min2(k + 1, D.ph), j), s.U[j]>> : j \in 1..D.nu}), s.lo, s.hi>>
          : k \in 0..D.ph}
\* the solver refuses crossing limits
Crossing(st) == \E r \in InRowsOf(st) : r[2] > r[3]

\* quadratic term (upper triangle, nonzero entries) and linear term
POf(st) == LET D == st.D
               q(k, i, j) == SumTo([o \in 1..D.ny |-> st.C[o][i] * st.wy[IdxOf(k)][o] * st.C[o][j]], D.ny) IN
    {e \in UNION {
        {<<PX(D, k, i), PX(D, k, j), q(k, i, j)>> : k \in 0..D.ph, i \in 1..D.nx, j \in 1..D.nx},
        {<<PU(D, k, j), PU(D, k, j), st.wu[IdxOf(k)][j]>> : k \in 0..D.ph, j \in 1..D.nu},
        {<<PD(D, k, j), PD(D, k, j), st.wd[k][j]>> : k \in 0..(D.ph - 1), j \in 1..D.nu}} : e[1] <= e[2] /\ e[3] # 0}
QOf(st) == LET D == st.D
               s == D.nx + D.nu
               B1 == (D.ph + 1) * s IN
    [p \in 1..NV(D) |->
        IF p > B1 THEN LET k == (p - B1 - 1) \div D.nu
                           j == ((p - B1 - 1) % D.nu) + 1 IN -(st.wd[k][j] * st.rd[k][j])
        ELSE LET k == (p - 1) \div s
                 i == ((p - 1) % s) + 1
                 h == IdxOf(k) IN
             IF i > D.nx THEN -(st.wu[h][i - D.nx] * st.ru[h][i - D.nx])
             ELSE LET f == FeedOf(st, k) IN SumTo([o \in 1..D.ny |-> st.C[o][i] * st.wy[h][o] * (f[o] - st.ry[h][o])], D.ny)]

\* ---- what the solver plays: entry i of vector number s
Zof(s, i) == (((s * 7) + (i * 13) + ((i * i * s) % 17)) % 13) - 6
XSeq(st, s) == LET D == st.D IN [k \in 1..(D.ph + 1) |-> [i \in 1..D.nx |-> Zof(s, PX(D, k - 1, i))]]
USeq(st, s) == LET D == st.D IN [k \in 1..(D.ph + 1) |-> [j \in 1..D.nu |-> Zof(s, PU(D, Min2(k, D.ph), j))]]
YSeq(st, X) == LET D == st.D IN [k \in 1..(D.ph + 1) |-> LET f == FeedOf(st, k - 1) IN
                  [i \in 1..D.ny |-> Dot(st.C[i], X[k], D.nx) + f[i]]]
\* endings: 1 solved, 2 solved inaccurately, -2 iteration limit, -3 3 primal infeasible, -4 4 dual infeasible, -5 interrupted,
\* -6 time limit, -7 not convex
HasVector(code) == code \in {1, 2, -2, -5, -6}
Infeasible(code) == code \in {3, 4, -3, -4}
StatusOf(code) == IF code \in {1, 2} THEN {0} ELSE IF code = -2 THEN {1} ELSE IF Infeasible(code) THEN {2} ELSE IF code = -7 THEN {3} ELSE {1, 3, 4}
FeasOf(code) == IF code \in {1, 2, -2} THEN 1 ELSE 0

\* one solve: refused - the setup was refused; code, obj, seed: how the solver ends
LmSolve(st, refused, code, obj, seed, adv, status) ==
    LET ok == ~refused /\ HasVector(code)
        st1 == [st EXCEPT !.log = Append(@, <<adv, status>>)]
        X == TLCEval(XSeq(st, seed))
        U == TLCEval(USeq(st, seed)) IN
    IF ok THEN [st1 EXCEPT !.wx = seed, !.wz = seed + 5, !.cmd = U[1],
                           !.res = [st |-> status, cost |-> obj, feas |-> FeasOf(code), code |-> code],
                           !.seq = [X |-> X, U |-> U, Y |-> YSeq(st, X)]]
    ELSE [st1 EXCEPT !.res = [st |-> status, cost |-> INFV, feas |-> 0, code |-> code], !.seq = <<>>]
=============================================================================
