---------------------------------- MODULE Dim ----------------------------------
(* Dimension arithmetic.  A dimension is a number or unknown (-1); an operation on   *)
(* known operands is the integer operation, anything with an unknown is unknown.      *)
EXTENDS Integers
UNK == -1
Known(a) == a > UNK
Int2(o, a, b) == CASE o = 1 -> a + b [] o = 2 -> a - b [] o = 3 -> a * b
Dim2(o, a, b) == IF Known(a) /\ Known(b) THEN Int2(o, a, b) ELSE UNK
\* the compound sizes the controllers are built from
NZ(ph, nx, ch, nu) == Dim2(1, Dim2(1, Dim2(3, ph, nx), Dim2(3, nu, ch)), 1)
=============================================================================
