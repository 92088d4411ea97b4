-------------------------------- MODULE Enc --------------------------------
(* Encodings shared by the specification and the conformance drivers            *)
(* (harness/hx.hpp): quantities are logged as scaled integers, with sentinels.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

INFV == 2000000000      \* +infinity (negated: -infinity)
NANV == 2000000001      \* not a number
BIGV == 2000000002      \* too large to be logged
INEXACT == 2000000003   \* not a multiple of the unit it is logged in
IsNum(v) == v < 1900000000 /\ v > -1900000000

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

\* v times c for a plain number, infinities keep their sign (c > 0)
MulE(v, c) == IF IsNum(v) THEN v * c ELSE v
DivE(v, c) == IF IsNum(v) THEN v \div c ELSE v

\* two's complement does not reach here: every operand is small by construction
TruncDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)

\* coefficient hash, in -2..2 (same as hx::W)
W(s, a, b, c) == (((s*37 + a*13 + b*29 + c*53 + a*b*7 + s*c*3 + s*a*5) % 101) % 5) - 2
=============================================================================
