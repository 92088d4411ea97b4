--------------------------------- MODULE MCDim ---------------------------------
EXTENDS Dim
CONSTANT Max
VARIABLES a, b, c
Init == a \in -1..Max /\ b \in -1..Max /\ c \in -1..Max
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>
Laws == /\ Dim2(1, a, b) = Dim2(1, b, a) /\ Dim2(3, a, b) = Dim2(3, b, a)
        /\ Dim2(1, Dim2(1, a, b), c) = Dim2(1, a, Dim2(1, b, c))
        /\ Dim2(3, a, Dim2(1, b, c)) = Dim2(1, Dim2(3, a, b), Dim2(3, a, c))
        /\ (a >= b /\ b >= 0) => Dim2(1, Dim2(2, a, b), b) = a
Unknown == \A o \in 1..3 : (a = UNK \/ b = UNK) => Dim2(o, a, b) = UNK
=============================================================================
