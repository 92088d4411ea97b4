--------------------------------- MODULE Rk4 ---------------------------------
(* Classical fourth-order Runge-Kutta on integer grids.  Time and state are whole    *)
(* numbers of units, the step h is a multiple of six of them, and the vector fields   *)
(* have integer values, so that every stage and every step is exact.  The field       *)
(* number s is a fixed, arbitrary function of time and state.                         *)
EXTENDS Enc

\* ---- fields.  s < 100: hashes (arbitrary nonlinear functions, bounded); 100..199: cubic polynomials in time;
\* 200..299: linear fields with constant coefficients
M(v, m) == v % m          \* TLC: 0..m-1 also for negative v
Hash(s, j, t, x) == M(W(s, j, 1, 31) * t + M(t * t, 11) + SumTo([i \in 1..Len(x) |-> (W(s, j, i, 32) + 3) * x[i]], Len(x))
                      + M(x[1] * x[M(j, Len(x)) + 1], 13), 9) - 4
Poly(s, j, t) == W(s, j, 0, 33) + W(s, j, 1, 33) * t + W(s, j, 2, 33) * t * t + W(s, j, 3, 33) * t * t * t
Lin(s, j, x) == W(s, j, 0, 34) + IF j < Len(x) THEN x[j + 1] ELSE 0
F(s, t, x) == [j \in 1..Len(x) |-> IF s < 100 THEN Hash(s, j, t, x) ELSE IF s < 200 THEN Poly(s, j, t) ELSE Lin(s, j, x)]

Add(x, c, k) == TLCEval([j \in 1..Len(x) |-> x[j] + c * k[j]])
\* one step from time t
Step(s, t, x, h) ==
    LET k1 == TLCEval(F(s, t, x))
        k2 == TLCEval(F(s, t + h \div 2, Add(x, h \div 2, k1)))
        k3 == TLCEval(F(s, t + h \div 2, Add(x, h \div 2, k2)))
        k4 == TLCEval(F(s, t + h, Add(x, h, k3)))
    IN TLCEval([j \in 1..Len(x) |-> x[j] + (h \div 6) * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j])])
RECURSIVE Run(_, _, _, _, _)
Run(s, t, x, h, n) == IF n = 0 THEN x ELSE Run(s, t + h, Step(s, t, x, h), h, n - 1)
=============================================================================
