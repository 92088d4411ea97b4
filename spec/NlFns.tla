------------------------------- MODULE NlFns -------------------------------
(* The user functions the conformance scripts bind (polynomials of degree at    *)
(* most two in every single solver variable, so that central differences are    *)
(* exact), and the meaning of the solver vector.                                 *)
(* Units: states, inputs, slack and solver vector entries are half units,       *)
(* outputs and constraint values quarters, costs sixteenths.                     *)
EXTENDS Enc

NZ(D) == D.ph * D.nx + D.ch * D.nu + 1

\* solver vector -> trajectories (rows 0..ph)
XOf(D, z, x0, sx) == [k \in 0..D.ph |-> [i \in 1..D.nx |->
    IF k = 0 THEN x0[i] ELSE z[(k - 1) * D.nx + i] * sx[i]]]
UOf(D, z, su) == [k \in 0..D.ph |-> [j \in 1..D.nu |->
    z[D.ph * D.nx + Min2(k, D.ch - 1) * D.nu + j] * su[j]]]

Quad(s) == s < 100

\* output function s at (x, u, k), quarters; s = 0: none bound
OutRow(D, s, x, u, k) == [j \in 1..D.ny |->
    IF s = 0 THEN 0 ELSE
      4 * W(s, j, 0, 3) * k
    + 2 * SumTo([i \in 1..D.nx |-> W(s, j, i, 1) * x[i]], D.nx)
    + 2 * SumTo([i \in 1..D.nu |-> W(s, j, i, 2) * u[i]], D.nu)
    + 2 * k * (W(s, j, 2, 4) * x[(j % D.nx) + 1] + W(s, j, 3, 4) * u[(j % D.nu) + 1])
    + (IF Quad(s) THEN W(s, j, 1, 4) * x[(j % D.nx) + 1] * u[(j % D.nu) + 1] ELSE 0)]
YOf(D, s, X, U) == [k \in 0..D.ph |-> OutRow(D, s, X[k], U[k], k)]

\* state function s at (x, u, k), quarters
StateRow(D, s, x, u, k) == [j \in 1..D.nx |->
      4 * W(s, j, 0, 24) * k
    + 2 * SumTo([i \in 1..D.nx |-> W(s, j, i, 21) * x[i]], D.nx)
    + 2 * SumTo([i \in 1..D.nu |-> W(s, j, i, 22) * u[i]], D.nu)
    + 2 * k * (W(s, j, 3, 23) * x[(j % D.nx) + 1] + W(s, j, 4, 23) * u[(j % D.nu) + 1])
    + (IF Quad(s) THEN LET xa == x[(j % D.nx) + 1] IN
          W(s, j, 1, 23) * xa * u[(j % D.nu) + 1] + W(s, j, 2, 23) * xa * xa ELSE 0)]

\* objective s, sixteenths
CostOf(D, s, X, Y, U, E) ==
    LET q == IF Quad(s) THEN 1 ELSE 0
        Row(k) == LET r == IF k > 0 THEN q ELSE 0 IN
            SumTo([i \in 1..D.nx |-> 8 * W(s, k + 1, i, 5) * X[k][i] + r * 4 * W(s, k + 1, i, 6) * X[k][i] * X[k][i]], D.nx)
          + SumTo([i \in 1..D.ny |-> 4 * W(s, k + 1, i, 7) * Y[k][i] + r * W(s, k + 1, i, 8) * Y[k][i] * Y[k][i]], D.ny)
          + SumTo([i \in 1..D.nu |-> 8 * W(s, k + 1, i, 9) * U[k][i] + q * 4 * W(s, k + 1, i, 10) * U[k][i] * U[k][i]], D.nu)
          + q * 4 * W(s, k + 1, 1, 12) * X[k][1] * U[k][1]
    IN  16 * W(s, 1, 3, 11) + 8 * W(s, 1, 1, 11) * E + q * 4 * W(s, 1, 2, 11) * E * E
      + SumTo([k \in 1..D.ph |-> Row(k)], D.ph) + Row(0)

\* user inequality s with offset off, entry q, quarters
IneqOf(D, s, off, X, Y, U, E) == [q \in 1..D.ni |->
    IF s >= 200 /\ q = ((s - 200) % D.ni) + 1 THEN NANV
    ELSE IF s = 0 THEN off
    ELSE LET g == IF Quad(s) THEN 1 ELSE 0
             Row(k) == LET a == q * 20 + k IN
                 2 * SumTo([i \in 1..D.nx |-> W(s, a, i, 14) * X[k][i]], D.nx)
               + SumTo([i \in 1..D.ny |-> W(s, a, i, 15) * Y[k][i]], D.ny)
               + 2 * SumTo([i \in 1..D.nu |-> W(s, a, i, 16) * U[k][i]], D.nu)
               + g * W(s, a, 1, 17) * X[k][1] * U[k][1]
         IN off + 2 * W(s, q, 1, 13) * E + SumTo([k \in 1..D.ph |-> Row(k)], D.ph) + Row(0)]

\* user equality
EqOf(D, s, off, X, U) == [q \in 1..D.ne |->
    IF s >= 200 /\ q = ((s - 200) % D.ne) + 1 THEN NANV
    ELSE IF s = 0 THEN off
    ELSE LET g == IF Quad(s) THEN 1 ELSE 0
             Row(k) == LET a == q * 20 + k IN
                 2 * SumTo([i \in 1..D.nx |-> W(s, a, i, 18) * X[k][i]], D.nx)
               + 2 * SumTo([i \in 1..D.nu |-> W(s, a, i, 19) * U[k][i]], D.nu)
               + g * W(s, a, 1, 20) * X[k][1] * U[k][1]
         IN off + SumTo([k \in 1..D.ph |-> Row(k)], D.ph) + Row(0)]

\* model residual (physical, quarters), rows (k-1)*nx + i, for steps k = 1..ph; ts = 0: discrete time
ModelOf(D, s, ts, X, U) == [r \in 1..(D.ph * D.nx) |->
    LET k == (r - 1) \div D.nx
        i == ((r - 1) % D.nx) + 1
    IN IF ts = 0
       THEN 2 * X[k + 1][i] - StateRow(D, s, X[k], U[k], k)[i]
       ELSE 2 * X[k + 1][i] - 2 * X[k][i]
            - (ts \div 2) * (StateRow(D, s, X[k], U[k], k)[i] + StateRow(D, s, X[k + 1], U[k], k)[i])]
=============================================================================
