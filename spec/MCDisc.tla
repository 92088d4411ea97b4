-------------------------------- MODULE MCDisc --------------------------------
(* The fixed-point discretisation against closed forms and the semigroup property.  *)
EXTENDS Disc
CONSTANT Big
VARIABLES c, r
B3 == {-1, 0, 2}
Mats == {<<<<a>>>> : a \in -3..3} \cup {<<<<0, a>>, <<b, 0>>>> : a \in B3, b \in B3} \cup {<<<<0, a, b>>, <<0, 0, d>>, <<0, 0, 0>>>> : a \in B3, b \in B3, d \in {-1, 2}}
        \cup (IF Big THEN {<<<<a, b>>, <<d, e>>>> : a \in B3, b \in B3, d \in B3, e \in B3} ELSE {})
Two(A, p, q) == LET h == Halvings(A, p, q) IN TLCEval([h |-> h, r |-> IF h <= 0 THEN PhiPsi(A, p, q) ELSE <<>>])
Init == \E A \in Mats, p \in {1, 3}, q \in {2, 4, 10} : c = <<A, p, q>> /\ r = <<Two(A, p, q), Two(A, 2 * p, q)>>
Next == UNCHANGED <<c, r>>
Spec == Init /\ [][Next]_<<c, r>>
Near(X, Y, t) == \A i \in 1..Len(X), j \in 1..Cols(X) : Abs(X[i][j] - Y[i][j]) <= t
\* in thousandths
Mil(x) == TLCEval([k \in {1, 2} |-> Scaled(x.r[k], 1, UnitOf(x.h) \div 1000)])
\* Phi(2T) = Phi(T)^2, Psi(2T) = (I + Phi(T)) Psi(T)
Semigroup == (r[1].h <= 0 /\ r[2].h <= 0) => \E a \in {Mil(r[1])}, b \in {Mil(r[2])} :
    /\ \E x \in {Scaled(Mul(a[1], a[1]), 1, 1000)} : Near(b[1], x, 20)
    /\ \E x \in {MAdd(a[2], Scaled(Mul(a[1], a[2]), 1, 1000))} : Near(b[2], x, 60)
\* dPhi/dT = A Phi, integrated:  Phi = I + A Psi
Integral == r[1].h <= 0 => \E x \in {MAdd(Id(Len(c[1]), UnitOf(r[1].h)), Mul(c[1], r[1].r[2]))} : Near(r[1].r[1], x, 40 * (1 + Norm(c[1])))
\* nilpotent chain of three integrators: exact
Nilpotent == (r[1].h <= 0 /\ Len(c[1]) = 3) => LET A == c[1]  p == c[2]  q == c[3]  S == UnitOf(r[1].h)  P == r[1].r[1] IN
    /\ Abs(P[1][2] - RoundDiv(S * A[1][2] * p, q)) <= 2
    /\ Abs(P[1][3] - RoundDiv(S * A[1][3] * p, q) - RoundDiv((S \div 100) * A[1][2] * A[2][3] * p * p, 2 * q * q) * 100) <= 100
=============================================================================
