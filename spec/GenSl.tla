-------------------------------- MODULE GenSl --------------------------------
(* Exhaustive script generator for the horizon slices: for prediction horizon PH   *)
(* and every control horizon, every slice-taking setter of the controller KIND      *)
(* with every start and end from two below to two above the horizon, and with far ones, followed by a   *)
(* solve, so that what the call changed is seen by the solver.  Values are all        *)
(* different from one call to the next.                                               *)
EXTENDS Enc, Json, IOUtils

Kind == IOEnv.KIND
PH == atoi(IOEnv.PH)
Dynamic == atoi(IOEnv.DYN)      \* -1: all control horizons at run time; s > 0: static shape number s
VARIABLES n
vars == <<n>>

ShapeNl == <<<<2, 1, 1, 3, 2, 2, 1>>, <<1, 2, 2, 4, 4, 1, 2>>, <<2, 2, 1, 2, 1, 0, 0>>, <<1, 1, 1, 1, 1, 1, 1>>, <<3, 2, 2, 5, 3, 2, 2>>>>
ShapeLm == <<<<2, 1, 1, 1, 3, 2>>, <<1, 2, 2, 2, 4, 4>>, <<2, 2, 1, 1, 2, 1>>, <<1, 1, 0, 1, 1, 1>>, <<3, 2, 2, 2, 5, 3>>>>
\* <<nx, nu, ndu, ny, ph, ch>>
Cases == IF Dynamic > 0 THEN (IF Kind = "nl" THEN LET s == ShapeNl[Dynamic] IN <<<<s[1], s[2], 0, s[3], s[4], s[5]>>>> ELSE <<ShapeLm[Dynamic]>>)
         ELSE [c \in 1..PH |-> <<1, 1, 1, 1, PH, c>>]
NewOp(c) == IF Kind = "nl" THEN (IF Dynamic > 0 THEN <<"new", 1, Dynamic, 0>> \o ShapeNl[Dynamic] ELSE <<"new", 1, 0, 1, c[1], c[2], c[4], c[5], c[6], 0, 0>>)
            ELSE <<"new", 1, IF Dynamic > 0 THEN Dynamic ELSE 0, IF Dynamic > 0 THEN 0 ELSE 1>> \o c
Ops == IF Kind = "nl" THEN <<"xb", "ub">> ELSE <<"xb", "ub", "yb", "sc", "sci", "w", "ref", "ext">>
HorOf(o, c) == IF o = "ub" THEN c[6] ELSE c[5]
Up(len, v) == [i \in 1..len |-> v + i]
LoHi(len, v) == [i \in 1..len |-> v + i - 60] \o [i \in 1..len |-> v + i]
Args(o, c, v) ==
    CASE o = "xb" -> LoHi(c[1], v) [] o = "ub" -> LoHi(c[2], v) [] o = "yb" -> LoHi(c[4], v)
      [] o = "sc" -> LoHi(1, v) \o Up(c[1] + c[2], v % 7)
      [] o = "w" -> Up(c[4] + 2 * c[2], v) [] o = "ref" -> Up(c[4] + 2 * c[2], v) [] o = "ext" -> Up(c[3], v)
Base(c) == IF Kind = "nl" THEN <<<<"obj", 1, 3>>>>
           ELSE <<<<"model", 1>> \o Up(c[1] * c[1] + c[1] * c[2] + c[4] * c[1], 0),
                  <<"dist", 1>> \o Up(c[1] * c[3] + c[4] * c[3], 1), <<"w", 1, -1, -1>> \o Up(c[4] + 2 * c[2], 2)>>
Opt(c, m) == IF Kind = "nl" THEN <<"opt", 1>> \o [i \in 1..(c[1] + c[2]) |-> i] \o <<0, 4, 16>> \o [i \in 1..(c[5] * c[1] + c[6] * c[2] + 1) |-> 0] \o <<0, 0, 0, 0>>
             ELSE <<"opt", 1>> \o [i \in 1..(c[1] + c[2]) |-> i] \o <<0, 1, m, 7, 0>>
\* call k of a case: setter, start, end
RECURSIVE Calls(_, _)
Calls(c, j) == IF j > Len(Ops) THEN <<>> ELSE
    LET hz == HorOf(Ops[j], c)
        w == hz + 5 IN      \* -2 .. hz + 2
    LET far == <<256, 65536, 256 + hz, 65536 + hz, 2147483647, -2147483647, -256, -65536>>     \* indices a narrower type would take for small ones
        other == [k \in 1..32 |-> LET q == (k - 1) \div 2
                                      e == far[(q \div 2) + 1] IN
                   IF k % 2 = 0 THEN Opt(c, q)
                   ELSE (IF Ops[j] = "sci" THEN <<"sci", 1, IF e < 0 THEN -e ELSE e>> ELSE IF q % 2 = 0 THEN <<Ops[j], 1, 0, e>> ELSE <<Ops[j], 1, e, hz>>)
                        \o Args(IF Ops[j] = "sci" THEN "sc" ELSE Ops[j], c, q + 7)]
    IN other \o
    IF Ops[j] = "sci" THEN [k \in 1..(2 * w) |-> IF k % 2 = 0 THEN Opt(c, k) ELSE <<"sci", 1, k \div 2>> \o Args("sc", c, (k % 53) + 1)] \o Calls(c, j + 1)
    ELSE
    [k \in 1..(2 * w * w) |-> LET q == (k - 1) \div 2 IN
        IF k % 2 = 0 THEN Opt(c, q) ELSE <<Ops[j], 1, (q \div w) - 2, (q % w) - 2>> \o Args(Ops[j], c, (q % 53) + 1)] \o Calls(c, j + 1)
RECURSIVE All(_)
All(k) == IF k > Len(Cases) THEN <<>> ELSE <<NewOp(Cases[k])>> \o Base(Cases[k]) \o Calls(Cases[k], 1) \o All(k + 1)
Script == All(1)
VARIABLE sc
Init == n = 0 /\ sc = TLCEval(Script) /\ PrintT("OP " \o ToJson(<<"#", PH>>))
Next == /\ n < Len(sc)
        /\ n' = n + 1
        /\ UNCHANGED sc
        /\ PrintT("OP " \o ToJson(sc[n + 1]))
Spec == Init /\ [][Next]_<<n>>
View == n
=============================================================================
