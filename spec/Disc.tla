--------------------------------- MODULE Disc ---------------------------------
(* Zero-order-hold discretisation in fixed point (unit 1/S).  A, B, .. are integer   *)
(* matrices (rows of rows), the sampling time is p/q.                                 *)
(*   Phi(T) = sum A^k T^k / k!          Psi(T) = sum A^k T^(k+1) / (k+1)!              *)
(* evaluated by their series for small A T, otherwise by doubling:                     *)
(*   Phi(2T) = Phi(T) Phi(T)            Psi(2T) = Psi(T) + Phi(T) Psi(T)               *)
EXTENDS Enc, SequencesExt

Id(n, s) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN s ELSE 0]]
Zero(n, m) == [i \in 1..n |-> [j \in 1..m |-> 0]]
Cols(X) == Len(X[1])
\* TLC evaluates a bound value once, an operator's argument every time it is used
The(S) == CHOOSE x \in S : TRUE
Mul(P, Q) == The({TLCEval([i \in 1..Len(X) |-> [j \in 1..Cols(Y) |-> SumTo([k \in 1..Len(Y) |-> X[i][k] * Y[k][j]], Len(Y))]]) : X \in {P}, Y \in {Q}})
MAdd(P, Q) == The({TLCEval([i \in 1..Len(X) |-> [j \in 1..Cols(X) |-> X[i][j] + Y[i][j]]]) : X \in {P}, Y \in {Q}})
RoundDiv(a, b) == (2 * a + b) \div (2 * b)
Scaled(P, p, q) == The({TLCEval([i \in 1..Len(X) |-> [j \in 1..Cols(X) |-> RoundDiv(X[i][j] * p, q)]]) : X \in {P}})
RowSum(X, i) == SumTo([j \in 1..Cols(X) |-> Abs(X[i][j])], Cols(X))
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Norm(X) == MaxOf({RowSum(X, i) : i \in 1..Len(X)})

\* series: a is <<sum for Phi, sum for Psi, term k-1 of Phi>>
Term(A, p, q, a, k) == The({<<MAdd(a[1], t), MAdd(a[2], Scaled(t, p, q * k)), t>> : t \in {IF k = 1 THEN a[3] ELSE Scaled(Mul(a[3], A), p, q * (k - 1))}})
Small(A, p, q, S) == LET n == Len(A) IN
    FoldLeft(LAMBDA a, k : Term(A, p, q, a, k), <<Zero(n, n), Zero(n, n), Id(n, S)>>, [k \in 1..(IF Norm(A) * p <= 2 * q THEN 16 ELSE 22) |-> k])
Doubled(r, m, S) == FoldLeft(LAMBDA a, k : TLCEval(<<Scaled(Mul(a[1], a[1]), 1, S), MAdd(a[2], Scaled(Mul(a[1], a[2]), 1, S))>>), <<r[1], r[2]>>, [k \in 1..m |-> k])

\* sum A^k T^k / (k+2)!, for T so small that eight terms do: what remains beyond the first two terms is A^2 T^2, A T^2 B times this
Rest(A, p, q, S) == LET n == Len(A) IN
    FoldLeft(LAMBDA a, k : The({<<MAdd(a[1], t), t>> : t \in {Scaled(Mul(a[2], A), p, q * (k + 2))}}), <<Scaled(Id(n, S), 1, 2), Scaled(Id(n, S), 1, 2)>>, [k \in 1..8 |-> k])[1]

\* m doublings make the series short; the unit follows the size of what is computed
Halvings(A, p, q) == LET v == Norm(A) * p IN IF v <= 2 * q THEN 0 ELSE IF v <= 4 * q THEN -1 ELSE CHOOSE m \in 1..8 : v <= q * (2^(m + 1)) /\ (v > q * (2^m) \/ m = 1)
UnitOf(h) == IF h = 0 THEN 1000000 ELSE IF h = -1 THEN 100000 ELSE 10000
PhiPsi(A, p, q) == LET h == Halvings(A, p, q) IN
    IF h <= 0 THEN Small(A, p, q, UnitOf(h)) ELSE Doubled(Small(A, p, q * (2^h), UnitOf(h)), h, UnitOf(h))
\* units the fixed point may be off by, for Phi; Psi is off by as much times T
Slack(h) == IF h = 0 THEN 60 ELSE IF h = -1 THEN 200 ELSE 400
=============================================================================
