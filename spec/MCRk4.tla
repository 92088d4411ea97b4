-------------------------------- MODULE MCRk4 --------------------------------
(* What the integrator specification promises, over a grid: composition, exactness   *)
(* for cubic polynomials in time, and for chains of integrators.                      *)
EXTENDS Rk4
CONSTANT Big
VARIABLES c
Init == c \in [s : (0..(IF Big THEN 40 ELSE 10)) \cup (100..(IF Big THEN 140 ELSE 110)) \cup (200..204), t : {-7, 0, 3}, h : {-12, -6, 0, 6, 12}, x : {<<2>>, <<-1, 5>>, <<3, 0, -4>>}]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Composes == \A n \in 0..3, m \in 0..2 :
    Run(c.s, c.t, c.x, c.h, n + m) = Run(c.s, c.t + n * c.h, Run(c.s, c.t, c.x, c.h, n), c.h, m)
\* twelve times the integral of the polynomial from 0 to t
Int12(s, j, t) == 12 * W(s, j, 0, 33) * t + 6 * W(s, j, 1, 33) * t * t + 4 * W(s, j, 2, 33) * t * t * t + 3 * W(s, j, 3, 33) * t * t * t * t
CubicExact == (c.s \in 100..199) => \A n \in 0..3 : LET r == Run(c.s, c.t, c.x, c.h, n) IN
    \A j \in 1..Len(c.x) : 12 * (r[j] - c.x[j]) = Int12(c.s, j, c.t + n * c.h) - Int12(c.s, j, c.t)
\* x_last' = a, x_{last-1}' = b + x_last, ...: the exact solution
ChainExact == (c.s \in 200..299) => \A n \in 0..2 : LET r == Run(c.s, c.t, c.x, c.h, n)
                                                       T == n * c.h
                                                       N == Len(c.x)
                                                       A(j) == W(c.s, j, 0, 34) IN
    /\ r[N] = c.x[N] + A(N) * T
    /\ N > 1 => 2 * r[N - 1] = 2 * c.x[N - 1] + 2 * (A(N - 1) + c.x[N]) * T + A(N) * T * T
    /\ N > 2 => 6 * r[N - 2] = 6 * c.x[N - 2] + 6 * (A(N - 2) + c.x[N - 1]) * T + 3 * (A(N - 1) + c.x[N]) * T * T + A(N) * T * T * T
=============================================================================
