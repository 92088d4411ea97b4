-------------------------------- MODULE GenDisc --------------------------------
(* Discretisation scripts: disc overload shape p q A.. B.. extra..                  *)
EXTENDS Disc, Json, IOUtils
MaxOps == atoi(IOEnv.MAXOPS)
VARIABLES n, op
R(lo, hi) == RandomElement(lo..hi)
P(p) == RandomElement(1..100) <= p
\* nx, nu, disturbances or outputs
Shape == <<<<1, 1, 1>>, <<2, 1, 1>>, <<2, 2, 1>>, <<3, 1, 2>>, <<3, 2, 3>>, <<4, 2, 1>>, <<2, 3, 2>>, <<1, 2, 3>>, <<2, 2, 2>>, <<6, 2, 2>>>>
Mat(r, c, lo, hi) == TLCEval([i \in 1..r |-> [j \in 1..c |-> RandomElement(lo..hi)]])
SparseMat(r, lo, hi) == TLCEval([i \in 1..r |-> [j \in 1..r |-> IF P(50) THEN 0 ELSE RandomElement(lo..hi)]])
Upper(r) == TLCEval([i \in 1..r |-> [j \in 1..r |-> IF j <= i THEN 0 ELSE RandomElement(-2..3)]])
Stiff(r) == TLCEval([i \in 1..r |-> [j \in 1..r |-> IF i = j THEN -R(5, 20) ELSE RandomElement(-1..1)]])
Flat(X) == [k \in 1..(Len(X) * Cols(X)) |-> X[((k - 1) \div Cols(X)) + 1][((k - 1) % Cols(X)) + 1]]
Kind(z) == LET w == R(1, 100) IN IF w <= 30 THEN 1 ELSE IF w <= 60 THEN 2 ELSE IF w <= 85 THEN 3 ELSE 4
AOf(k, r) == CASE k = 1 -> Mat(r, r, -3, 3) [] k = 2 -> SparseMat(r, -3, 3) [] k = 3 -> Upper(r) [] k = 4 -> Stiff(r)
\* sampling times which keep the matrices small, except for the stiff systems
Times == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 2>>, <<1, 4>>, <<3, 10>>, <<1, 10>>, <<1, 100>>, <<7, 100>>, <<3, 100>>, <<0, 1>>,
          <<1, 40>>, <<1, 64>>, <<1, 500>>, <<1, 4000>>, <<3, 20000>>}
Fits(k, A) == {t \in Times : IF k = 4 THEN t[2] <= 10 /\ Norm(A) * t[1] <= 60 * t[2] ELSE Norm(A) * t[1] <= 4 * t[2]}
\* a new system
Extra(o, nx, nu, nq) == IF o = 2 THEN Flat(Mat(nx, nq, -3, 3)) ELSE IF o = 3 THEN Flat(Mat(nq, nx, -9, 9)) \o Flat(Mat(nq, nu, -9, 9)) ELSE <<>>
New(z) == \E s \in {R(1, Len(Shape))}, o \in {R(1, 3)}, k \in {Kind(n)} : \E A \in {AOf(k, Shape[s][1])} : \E t \in {RandomElement(Fits(k, A))} :
           LET nx == Shape[s][1]  nu == Shape[s][2]  nq == Shape[s][3] IN
           op' = <<"disc", o, s, t[1], t[2]>> \o Flat(A) \o Flat(Mat(nx, nu, -3, 3)) \o Extra(o, nx, nu, nq)
\* the last system with another input matrix (or not) and other disturbances or outputs, through the same function or another
Again(z) == LET nx == Shape[op[3]][1]  nu == Shape[op[3]][2]  nq == Shape[op[3]][3] IN
            \E o \in {IF P(50) THEN op[2] ELSE R(1, 3)}, same \in {P(60)} :
               op' = <<"disc", o>> \o SubSeq(op, 3, 5 + nx * nx) \o (IF same THEN SubSeq(op, 6 + nx * nx, 5 + nx * nx + nx * nu) ELSE Flat(Mat(nx, nu, -3, 3)))
                     \o Extra(o, nx, nu, nq)
Init == n = 0 /\ op = <<>>
Next == /\ n < MaxOps
        /\ n' = n + 1
        /\ \E c \in {P(25)} : IF c /\ op # <<>> THEN Again(n) ELSE New(n)
        /\ PrintT("OP " \o ToJson(op'))
Spec == Init /\ [][Next]_<<n, op>>
=============================================================================
