------------------------------- MODULE DimProofs -------------------------------
(* The laws of the dimension arithmetic (MCDim checks them up to a bound), proved for *)
(* all numbers.                                                                        *)
EXTENDS Dim, TLAPS
D == Nat \cup {-1}

THEOREM Unknown == \A o \in 1..3, a, b \in D : (a = UNK \/ b = UNK) => Dim2(o, a, b) = UNK
  BY DEF Dim2, Known, UNK, D

THEOREM Exact == \A a, b \in Nat : /\ Dim2(1, a, b) = a + b /\ Dim2(2, a, b) = a - b /\ Dim2(3, a, b) = a * b
  BY DEF Dim2, Known, UNK, Int2

THEOREM Closed == \A a, b \in D : Dim2(1, a, b) \in D /\ Dim2(3, a, b) \in D
  BY DEF Dim2, Known, UNK, Int2, D
THEOREM Commutes == \A a, b \in D : Dim2(1, a, b) = Dim2(1, b, a) /\ Dim2(3, a, b) = Dim2(3, b, a)
  BY DEF Dim2, Known, UNK, Int2, D

THEOREM SumAssociative == \A a, b, c \in D : Dim2(1, Dim2(1, a, b), c) = Dim2(1, a, Dim2(1, b, c))
  BY DEF Dim2, Known, UNK, Int2, D

LEMMA P1 == \A a, b \in Nat : a * b \in Nat
  OBVIOUS
LEMMA P2 == \A a, b, c \in Nat : a * (b + c) = a * b + a * c
  BY Z3T(30)
LEMMA P3 == \A a, b, c \in Nat : (a * b) * c = a * (b * c)
  BY Z3T(30)

THEOREM ProductAssociative == \A a, b, c \in D : Dim2(3, Dim2(3, a, b), c) = Dim2(3, a, Dim2(3, b, c))
  BY P1, P2, P3 DEF Dim2, Known, UNK, Int2, D

THEOREM Distributes == \A a, b, c \in D : Dim2(3, a, Dim2(1, b, c)) = Dim2(1, Dim2(3, a, b), Dim2(3, a, c))
  BY P1, P2, P3 DEF Dim2, Known, UNK, Int2, D

THEOREM Cancels == \A a, b \in Nat : a >= b => Dim2(1, Dim2(2, a, b), b) = a
  BY DEF Dim2, Known, UNK, Int2

(* the size of the solver's vector is known when, and only when, the four sizes are *)
THEOREM Sized == \A ph, nx, ch, nu \in D : /\ NZ(ph, nx, ch, nu) \in D
                                         /\ NZ(ph, nx, ch, nu) = UNK <=> UNK \in {ph, nx, ch, nu}
  BY P1, P2, P3 DEF NZ, Dim2, Known, UNK, Int2, D
================================================================================
