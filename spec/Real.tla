--------------------------------- MODULE Real ---------------------------------
(* Closed loop with the real solver.  A problem is linear-quadratic, given together  *)
(* with a certificate: a plan and multipliers which satisfy the optimality conditions *)
(* (CertOk), so that the plan is the one optimum.  All numbers are integers.           *)
(*   minimise   1/2 sum_k |x_k - a_k|^2 + |u_k - b_k|^2 + |y_k - c_k|^2  +  1/2 e^2    *)
(*   s.t.       x_{k+1} = A x_k + B u_k + d_k            (kind 0, discrete time)        *)
(*              the trapezoidal rule for dx = A x + B u + d_k, two seconds (kind 1)      *)
(*              y = C x + Dm u, bounds, igx x + igu u + io <= e, egx x + egu u + eo = 0   *)
(* Kind 2 adds a bilinear term to the discrete model: only feasibility is claimed.         *)
EXTENDS Enc

Layout(D) == LET h == D.ph + 1 IN <<
    <<"opt", 4>>, <<"sx", D.nx>>, <<"su", D.nu>>, <<"A", D.nx * D.nx>>, <<"B", D.nx * D.nu>>, <<"d", D.ph * D.nx>>, <<"bil", D.nx>>,
    <<"C", D.ny * D.nx>>, <<"Dm", D.ny * D.nu>>, <<"a", h * D.nx>>, <<"b", h * D.nu>>, <<"c", h * D.ny>>,
    <<"xlo", D.ph * D.nx>>, <<"xhi", D.ph * D.nx>>, <<"ulo", D.ch * D.nu>>, <<"uhi", D.ch * D.nu>>,
    <<"igx", D.ni * h * D.nx>>, <<"igu", D.ni * h * D.nu>>, <<"io", D.ni>>, <<"egx", D.ne * h * D.nx>>, <<"egu", D.ne * h * D.nu>>, <<"eo", D.ne>>,
    <<"x0", D.nx>>, <<"u0", D.nu>>,
    \* the certificate
    <<"X", D.ph * D.nx>>, <<"U", D.ch * D.nu>>, <<"e", 1>>, <<"lam", D.ph * D.nx>>, <<"mux", D.ph * D.nx>>, <<"muu", D.ch * D.nu>>, <<"nu", D.ni>>, <<"eta", D.ne>> >>
Offset(L, j) == SumTo([k \in 1..Len(L) |-> L[k][2]], j - 1)
Unpack(D, s) == LET L == Layout(D) IN
    [f \in {L[k][1] : k \in 1..Len(L)} |-> LET j == CHOOSE k \in 1..Len(L) : L[k][1] = f IN SubSeq(s, Offset(L, j) + 1, Offset(L, j) + L[j][2])]
RECURSIVE Cat(_, _, _)
Cat(L, p, k) == IF k > Len(L) THEN <<>> ELSE p[L[k][1]] \o Cat(L, p, k + 1)
Pack(D, p) == Cat(Layout(D), p, 1)

Kind(p) == p.opt[1]
Warm(p) == p.opt[2]
Hard(p) == p.opt[3] = 1
\* states and inputs of row k = 0..ph
Xr(D, p, X, k, i) == IF k = 0 THEN p.x0[i] ELSE X[(k - 1) * D.nx + i]
Blk(D, k) == IF k < D.ch THEN k ELSE D.ch - 1
Ur(D, U, k, i) == U[Blk(D, k) * D.nu + i]
Yr(D, p, X, U, k, j) == SumTo([i \in 1..D.nx |-> p.C[(j - 1) * D.nx + i] * Xr(D, p, X, k, i)], D.nx)
                      + SumTo([i \in 1..D.nu |-> p.Dm[(j - 1) * D.nu + i] * Ur(D, U, k, i)], D.nu)
\* model matrices: M x_{k+1} = N x_k + P u_k + f d_k
IdE(i, j) == IF i = j THEN 1 ELSE 0
Mm(D, p, i, j) == IF Kind(p) = 1 THEN IdE(i, j) - p.A[(i - 1) * D.nx + j] ELSE IdE(i, j)
Nm(D, p, i, j) == IF Kind(p) = 1 THEN IdE(i, j) + p.A[(i - 1) * D.nx + j] ELSE p.A[(i - 1) * D.nx + j]
Fm(p) == IF Kind(p) = 1 THEN 2 ELSE 1
Pm(D, p, i, j) == Fm(p) * p.B[(i - 1) * D.nu + j]
Lin(D, p, X, U, k, i) ==     \* M x_{k+1} - N x_k - P u_k, row i
      SumTo([j \in 1..D.nx |-> Mm(D, p, i, j) * Xr(D, p, X, k + 1, j) - Nm(D, p, i, j) * Xr(D, p, X, k, j)], D.nx)
    - SumTo([j \in 1..D.nu |-> Pm(D, p, i, j) * Ur(D, U, k, j)], D.nu)
Bil(D, p, X, U, k, i) == p.bil[i] * Xr(D, p, X, k, i) * Ur(D, U, k, (i % D.nu) + 1)
UserRow(D, p, gx, gu, X, U, q) ==
    SumTo([k \in 1..(D.ph + 1) |-> SumTo([i \in 1..D.nx |-> gx[(q - 1) * (D.ph + 1) * D.nx + (k - 1) * D.nx + i] * Xr(D, p, X, k - 1, i)], D.nx)
                                 + SumTo([i \in 1..D.nu |-> gu[(q - 1) * (D.ph + 1) * D.nu + (k - 1) * D.nu + i] * Ur(D, U, k - 1, i)], D.nu)], D.ph + 1)

\* ---- gradients of everything but the bounds, at the certificate: x_k (k >= 1) and block m
GradX(D, p, k, i) ==
      (p.X[(k - 1) * D.nx + i] - p.a[k * D.nx + i])
    + SumTo([j \in 1..D.ny |-> p.C[(j - 1) * D.nx + i] * (Yr(D, p, p.X, p.U, k, j) - p.c[k * D.ny + j])], D.ny)
    + SumTo([j \in 1..D.nx |-> Mm(D, p, j, i) * p.lam[(k - 1) * D.nx + j]
                             - (IF k < D.ph THEN Nm(D, p, j, i) * p.lam[k * D.nx + j] ELSE 0)], D.nx)
    + SumTo([q \in 1..D.ni |-> p.nu[q] * p.igx[(q - 1) * (D.ph + 1) * D.nx + k * D.nx + i]], D.ni)
    + SumTo([q \in 1..D.ne |-> p.eta[q] * p.egx[(q - 1) * (D.ph + 1) * D.nx + k * D.nx + i]], D.ne)
GradUk(D, p, k, i) ==
      (Ur(D, p.U, k, i) - p.b[k * D.nu + i])
    + SumTo([j \in 1..D.ny |-> p.Dm[(j - 1) * D.nu + i] * (Yr(D, p, p.X, p.U, k, j) - p.c[k * D.ny + j])], D.ny)
    - (IF k < D.ph THEN SumTo([j \in 1..D.nx |-> Pm(D, p, j, i) * p.lam[k * D.nx + j]], D.nx) ELSE 0)
    + SumTo([q \in 1..D.ni |-> p.nu[q] * p.igu[(q - 1) * (D.ph + 1) * D.nu + k * D.nu + i]], D.ni)
    + SumTo([q \in 1..D.ne |-> p.eta[q] * p.egu[(q - 1) * (D.ph + 1) * D.nu + k * D.nu + i]], D.ne)
GradU(D, p, m, i) == SumTo([k \in 1..(D.ph + 1) |-> IF Blk(D, k - 1) = m THEN GradUk(D, p, k - 1, i) ELSE 0], D.ph + 1)

\* ---- the certificate holds
BoundOk(z, lo, hi, mu) == lo <= z /\ z <= hi /\ (mu > 0 => z = hi) /\ (mu < 0 => z = lo)
Feasible(D, p) ==
    /\ \A k \in 0..(D.ph - 1), i \in 1..D.nx : Lin(D, p, p.X, p.U, k, i) = Fm(p) * p.d[k * D.nx + i] + (IF Kind(p) = 2 THEN Bil(D, p, p.X, p.U, k, i) ELSE 0)
    /\ \A r \in 1..(D.ph * D.nx) : BoundOk(p.X[r], p.xlo[r], p.xhi[r], p.mux[r])
    /\ \A r \in 1..(D.ch * D.nu) : BoundOk(p.U[r], p.ulo[r], p.uhi[r], p.muu[r])
    /\ \A q \in 1..D.ni : LET g == UserRow(D, p, p.igx, p.igu, p.X, p.U, q) + p.io[q] - p.e[1] IN g <= 0 /\ p.nu[q] >= 0 /\ (p.nu[q] > 0 => g = 0)
    /\ \A q \in 1..D.ne : UserRow(D, p, p.egx, p.egu, p.X, p.U, q) + p.eo[q] = 0
    /\ Hard(p) => p.e[1] = 0
Stationary(D, p) ==
    /\ \A k \in 1..D.ph, i \in 1..D.nx : GradX(D, p, k, i) + p.mux[(k - 1) * D.nx + i] = 0
    /\ \A m \in 0..(D.ch - 1), i \in 1..D.nu : GradU(D, p, m, i) + p.muu[m * D.nu + i] = 0
    /\ ~Hard(p) => p.e[1] = SumTo(p.nu, D.ni)
CertOk(D, p) == Feasible(D, p) /\ (Kind(p) # 2 => Stationary(D, p))

\* ---- twice the cost of a plan
Sq(v) == v * v
Cost2(D, p, X, U, e) == Sq(e) + SumTo([k \in 1..(D.ph + 1) |->
      SumTo([i \in 1..D.nx |-> Sq(Xr(D, p, X, k - 1, i) - p.a[(k - 1) * D.nx + i])], D.nx)
    + SumTo([i \in 1..D.nu |-> Sq(Ur(D, U, k - 1, i) - p.b[(k - 1) * D.nu + i])], D.nu)
    + SumTo([j \in 1..D.ny |-> Sq(Yr(D, p, X, U, k - 1, j) - p.c[(k - 1) * D.ny + j])], D.ny)], D.ph + 1)
=============================================================================
