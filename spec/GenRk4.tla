-------------------------------- MODULE GenRk4 --------------------------------
(* Integrator scripts: runs on integrators which live through the whole script, some *)
(* continuing where an earlier run (same field) stopped.                              *)
(* run field dim units h steps t x..      units: of 1, 1/2^6, 1/2^10, 1/2^26, 2 (0) or 2^20 (-20) seconds          *)
EXTENDS Rk4, Json, IOUtils
MaxOps == atoi(IOEnv.MAXOPS)
VARIABLES n, op
R(lo, hi) == RandomElement(lo..hi)
P(p) == RandomElement(1..100) <= p
Field(z) == LET w == R(1, 10) IN IF w <= 6 THEN R(0, 99) ELSE IF w <= 8 THEN R(100, 140) ELSE R(200, 240)
H(s) == IF s >= 100 THEN 6 * R(-2, 2) ELSE IF P(5) THEN 0 ELSE 6 * (IF P(50) THEN 1 ELSE -1) * R(1, 5)
Fresh(z) == \E s \in {Field(n)}, d \in {RandomElement({1, 2, 3, 4, 7})} : \E h \in {H(s)} :
    op' = <<"run", s, d, RandomElement({0, 1, 1, 64, 1024, 67108864, -20}), h, IF P(30) THEN 1 ELSE IF s >= 100 THEN R(0, 4) ELSE IF P(1) THEN R(250, 300) ELSE IF P(10) THEN R(20, 60) ELSE R(0, 7), R(-20, 20)>>
          \o TLCEval([i \in 1..d |-> R(-30, 30)])
\* go on from the end of the last run
Cont(z) == LET a == Tail(op)
               x == SubSeq(a, 7, 6 + a[2]) IN
    \E m \in {R(1, 3)} : op' = <<"run", a[1], a[2], a[3], a[4], m, a[6] + a[4] * a[5]>> \o Run(a[1], a[6], x, a[4], a[5])
\* once more from the point of the last run, at another time or with another step
Again(z) == LET a == Tail(op) IN
    \E h \in {IF P(50) THEN a[4] ELSE H(a[1])}, t \in {IF P(50) THEN a[6] ELSE R(-20, 20)}, m \in {IF P(50) THEN a[5] ELSE R(0, 4)} :
        op' = <<"run", a[1], a[2], a[3], h, m, t>> \o SubSeq(a, 7, 6 + a[2])
Init == n = 0 /\ op = <<>>
Next == /\ n < MaxOps
        /\ n' = n + 1
        /\ \E c \in {R(1, 100)} : IF op # <<>> /\ c <= 35 /\ op[2] < 100 THEN Cont(n) ELSE IF op # <<>> /\ c > 90 /\ op[6] <= 7 THEN Again(n) ELSE Fresh(n)
        /\ PrintT("OP " \o ToJson(op'))
Spec == Init /\ [][Next]_<<n, op>>
=============================================================================
