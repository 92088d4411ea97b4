-------------------------------- MODULE GenNl --------------------------------
(* Script generator for the nonlinear controller: a random walk over the calls   *)
(* of Nl, run by TLC in simulation mode; every step prints the call it takes.     *)
(* PROFILE shifts the weights, MAXOPS is the number of calls, NCTL the number of  *)
(* controllers alive at a time, SHAPES = "static" restricts the dimensions.        *)
EXTENDS Nl, Json, IOUtils

Profile == IOEnv.PROFILE
MaxOps == atoi(IOEnv.MAXOPS)
NCtl == atoi(IOEnv.NCTL)
StaticOnly == IOEnv.SHAPES = "static"

VARIABLES n, cs, age, op, past      \* past: per controller and call, the arguments it was last made with
vars == <<n, cs, age, op, past>>

\* operators with a random result take an argument: a definition without any is evaluated once and for all
\* bind a random value once (definitions and arguments are re-evaluated at every use)
With(v, F(_)) == CHOOSE y \in {F(x) : x \in {TLCEval(v)}} : TRUE

R(lo, hi) == RandomElement(lo..hi)
P(percent) == RandomElement(1..100) <= percent
Vec(len, lo, hi) == TLCEval([i \in 1..len |-> RandomElement(lo..hi)])
Pow(len) == TLCEval([i \in 1..len |-> RandomElement({1, 2, 4})])

\* the static shapes the driver is compiled for
Shape == <<[nx |-> 2, nu |-> 1, ny |-> 1, ph |-> 3, ch |-> 2, ni |-> 2, ne |-> 1],
           [nx |-> 1, nu |-> 2, ny |-> 2, ph |-> 4, ch |-> 4, ni |-> 1, ne |-> 2],
           [nx |-> 2, nu |-> 2, ny |-> 1, ph |-> 2, ch |-> 1, ni |-> 0, ne |-> 0],
           [nx |-> 1, nu |-> 1, ny |-> 1, ph |-> 1, ch |-> 1, ni |-> 1, ne |-> 1],
           [nx |-> 3, nu |-> 2, ny |-> 2, ph |-> 5, ch |-> 3, ni |-> 2, ne |-> 2]>>
DimSeq(D) == <<D.nx, D.nu, D.ny, D.ph, D.ch, D.ni, D.ne>>
RandDim(ph) == TLCEval([nx |-> R(1, 3), nu |-> R(1, 2), ny |-> R(1, 2), ph |-> ph, ch |-> R(1, ph), ni |-> R(0, 2), ne |-> R(0, 2)])
\* <<shape, dynamic>>
RandNew(z) == With(R(1, 5), LAMBDA ph : <<0, 1, RandDim(ph)>>)
\* beyond the sizes above: many steps with few variables, or the other way round
\* (no more user equalities than the model leaves free variables: the solver refuses those)
LargeWith(D) == TLCEval([D EXCEPT !.ne = IF @ > D.ch * D.nu + 1 THEN D.ch * D.nu + 1 ELSE @])
LargeDim(w) == With(IF w = 1 THEN R(8, 18) ELSE R(2, 4), LAMBDA ph : With(IF P(20) THEN ph ELSE R(1, ph), LAMBDA ch : LargeWith(
               IF w = 1 THEN TLCEval([nx |-> R(1, 2), nu |-> R(1, 2), ny |-> R(1, 2), ph |-> ph, ch |-> ch, ni |-> R(0, 5), ne |-> R(0, 5)])
               ELSE TLCEval([nx |-> R(3, 8), nu |-> R(2, 5), ny |-> R(2, 6), ph |-> ph, ch |-> ch, ni |-> R(0, 3), ne |-> R(0, 3)]))))
LargeNew(z) == With(R(1, 2), LAMBDA w : <<0, 1, LargeDim(w)>>)
NewArgs(s) == IF StaticOnly THEN <<s, 0, Shape[s]>>
              ELSE IF IOEnv.SHAPES = "large" THEN LargeNew(n)
              ELSE IF P(40) THEN <<s, IF P(50) THEN 0 ELSE 1, Shape[s]>>
              ELSE RandNew(n)

\* ---- arguments
LoHi(len) ==
    With([i \in 1..len |-> IF P(15) THEN -INFV ELSE R(-12, 4)], LAMBDA lo :
        lo \o TLCEval([i \in 1..len |-> IF P(15) THEN INFV ELSE IF lo[i] = -INFV THEN R(-6, 10) ELSE lo[i] + R(0, 10)]))
Sl(h) == With(R(1, 100), LAMBDA w : IF w <= 20 THEN <<-1, -1>>
            ELSE IF w <= 80 THEN With(R(0, h - 1), LAMBDA a : <<a, R(a + 1, h)>>)
            ELSE <<R(-2, h + 1), R(-2, h + 2)>>)

\* n columns of w numbers (of f): as they are, or with runs of equal columns
Runs(vec, w, len) == IF P(50) THEN vec
    ELSE With(vec, LAMBDA f : With({k \in 2..len : P(40)}, LAMBDA starts : TLCEval([j \in 1..(w * len) |->
         LET c == ((j - 1) \div w) + 1
             from == CHOOSE b \in starts \cup {1} : b <= c /\ \A x \in starts : x <= c => x <= b
         IN f[(from - 1) * w + ((j - 1) % w) + 1]])))
\* limits, column by column (the same runs for both)
LoHiRuns(w, len) == With(LoHi(w * len), LAMBDA v : With(Runs([k \in 1..(w * len) |-> k], w, len), LAMBDA src :
    TLCEval([k \in 1..(2 * w * len) |-> IF k <= w * len THEN v[src[k]] ELSE v[w * len + src[k - w * len]]])))

Seed(z) == IF P(70) THEN R(1, 60) ELSE R(100, 160)
TolArg(z) == IF P(40) THEN -1 ELSE R(0, 2000)

\* a measured state, an input
PickCfg(w) ==
    IF Profile = "bounds" THEN (IF w <= 25 THEN "xb" ELSE IF w <= 50 THEN "ub" ELSE IF w <= 58 THEN "xbm" ELSE IF w <= 66 THEN "ubm"
                           ELSE IF w <= 74 THEN "sx" ELSE IF w <= 82 THEN "su" ELSE IF w <= 86 THEN "par" ELSE IF w <= 90 THEN "obj"
                           ELSE IF w <= 93 THEN "state" ELSE IF w <= 96 THEN "out" ELSE IF w <= 98 THEN "yb" ELSE "ybm")
    ELSE IF Profile = "fns" THEN (IF w <= 15 THEN "sx" ELSE IF w <= 30 THEN "su" ELSE IF w <= 40 THEN "ts" ELSE IF w <= 52 THEN "state"
                           ELSE IF w <= 64 THEN "out" ELSE IF w <= 76 THEN "obj" ELSE IF w <= 87 THEN "ineq" ELSE IF w <= 98 THEN "eq" ELSE "par")
    ELSE IF Profile = "life" THEN (IF w <= 8 THEN "xb" ELSE IF w <= 16 THEN "ub" ELSE IF w <= 30 THEN "par" ELSE IF w <= 36 THEN "sx" ELSE IF w <= 42 THEN "su"
                           ELSE IF w <= 46 THEN "ts" ELSE IF w <= 52 THEN "state" ELSE IF w <= 58 THEN "out" ELSE IF w <= 64 THEN "obj"
                           ELSE IF w <= 74 THEN "ineq" ELSE IF w <= 84 THEN "eq" ELSE IF w <= 88 THEN "last" ELSE IF w <= 93 THEN "stats"
                           ELSE IF w <= 96 THEN "reset" ELSE "clk")
    ELSE IF Profile = "time" THEN (IF w <= 55 THEN "stats" ELSE IF w <= 70 THEN "reset" ELSE IF w <= 90 THEN "clk" ELSE IF w <= 95 THEN "par" ELSE "obj")
    ELSE (IF w <= 8 THEN "xb" ELSE IF w <= 16 THEN "ub" ELSE IF w <= 19 THEN "xbm" ELSE IF w <= 22 THEN "ubm" ELSE IF w <= 30 THEN "sx" ELSE IF w <= 38 THEN "su"
          ELSE IF w <= 48 THEN "par" ELSE IF w <= 52 THEN "ts" ELSE IF w <= 60 THEN "state" ELSE IF w <= 68 THEN "out" ELSE IF w <= 76 THEN "obj"
          ELSE IF w <= 84 THEN "ineq" ELSE IF w <= 92 THEN "eq" ELSE IF w <= 94 THEN "last" ELSE IF w <= 96 THEN "stats" ELSE IF w <= 98 THEN "reset" ELSE "clk")

ParArgs(z) == LET q(x) == IF P(50) THEN 0 ELSE R(1, x) IN
    TLCEval(<<IF P(10) THEN -8 ELSE q(64), q(64), q(64), q(64), IF P(30) THEN 0 ELSE R(1, 50), q(16), IF P(60) THEN 1 ELSE 0, IF P(60) THEN 1 ELSE 0>>)

CfgArgs(st, o) == LET D == st.D IN
    CASE o = "xb" -> Sl(D.ph) \o LoHi(D.nx)
      [] o = "ub" -> Sl(D.ch) \o LoHi(D.nu)
      [] o = "yb" -> Sl(D.ph) \o LoHi(D.ny)
      [] o = "ybm" -> LoHiRuns(D.ny, D.ph)
      [] o = "xbm" -> LoHiRuns(D.nx, D.ph)
      [] o = "ubm" -> LoHiRuns(D.nu, D.ch)
      [] o = "par" -> ParArgs(n)
      [] o = "sx" -> Pow(D.nx)
      [] o = "su" -> Pow(D.nu)
      [] o = "ts" -> <<RandomElement({2, 4})>>
      [] o = "state" -> <<Seed(n), TolArg(n)>>
      [] o = "out" -> <<IF P(15) THEN 0 ELSE Seed(n)>>
      [] o = "obj" -> <<Seed(n)>>
      \* seed 0: constant, so that the tolerance can be hit exactly
      [] o = "ineq" -> IF P(30) THEN <<0, IF P(30) THEN -1 ELSE 256 * R(0, 4), R(-4, 5)>>
            ELSE <<IF P(6) THEN R(200, 210) ELSE Seed(n), TolArg(n), R(-8, 8)>>
      [] o = "eq" -> IF P(30) THEN <<0, IF P(30) THEN -1 ELSE 256 * R(0, 4), R(-5, 5)>>
            ELSE <<IF P(6) THEN R(200, 210) ELSE Seed(n), TolArg(n), R(-8, 8)>>
      [] o = "clk" -> <<250 * R(1, 40)>>
      [] OTHER -> <<>>

Linear(st) == /\ (st.fs.s = 0 \/ st.fs.s \in 100..199) /\ (st.fo = 0 \/ st.fo \in 100..199) /\ (st.fj = 0 \/ st.fj \in 100..199)
              /\ (st.fi.s <= 0 \/ st.fi.s \in 100..199) /\ (st.fe.s <= 0 \/ st.fe.s \in 100..199)

\* a point to probe: small exact half units; in a big one a few entries are huge, so that a finite-difference step sized on the
\* wrong element is not accurate
BigSize == 20000
Point(st, big) == TLCEval([k \in 1..NZ(st.D) |-> IF big /\ P(35) THEN RandomElement({-1, 1}) * R(BigSize \div 2, BigSize) * 2
                                                  ELSE IF P(25) THEN 0 ELSE R(-6, 6)])
Mode(grad, big) == (IF grad THEN 1 ELSE 0) + (IF P(30) THEN 2 ELSE 0) + (IF big THEN 4 ELSE 0)

\* once in a while the point of the last probe again
RECURSIVE Probes(_, _, _, _, _)
Probes(st, np, grads, big, z) == IF np = 0 THEN <<>>
    ELSE With(IF z # <<>> /\ P(15) THEN z ELSE Point(st, big), LAMBDA y : <<Mode(grads /\ P(60), big)>> \o y \o Probes(st, np - 1, grads, big, y))

NProbes(z) == IF Profile \in {"fns"} THEN R(1, 3) ELSE IF Profile = "bounds" \/ Profile = "time" THEN 0 ELSE R(0, 2)
\* who ends the solve: 0 nobody special, 1 the solver fails, 2 a user function throws while probing, 3 when the solution is post-processed
Ending(np, kinds) == IF P(IF Profile \in {"life", "time"} THEN 65 ELSE 85) THEN 0
                     ELSE With(R(1, 4), LAMBDA w : IF w <= 2 THEN 1 ELSE IF w = 3 /\ np > 0 THEN 2 ELSE IF kinds # {} THEN 3 ELSE 1)
\* what the solver is asked to evaluate
OptHead(st) ==
    With(Profile = "fns" /\ Linear(st) /\ P(70), LAMBDA big : With(NProbes(n), LAMBDA np :
        Vec(st.D.nx, -10, 10) \o Vec(st.D.nu, -6, 6) \o <<np>> \o Probes(st, np, Profile # "bounds", big, <<>>)))
NStart(st) == st.D.nx + st.D.nu
HeadN(st, h) == h[NStart(st) + 1]
HeadPoint(st, h, k) == LET from == NStart(st) + 1 + (k - 1) * (NZ(st.D) + 1) + 1 IN SubSeq(h, from + 1, from + NZ(st.D))
HeadBig(st, h) == HeadN(st, h) > 0 /\ h[NStart(st) + 2] >= 4
\* how the solve ends; the solution is a new point, or one that was evaluated
OptTail(st, h) ==
    LET kinds == {k \in 3..5 : PostThrows(st, k)}
        np == HeadN(st, h) IN
    With(Ending(np, kinds), LAMBDA w :
        <<IF w = 1 THEN R(-5, -1) ELSE R(1, 6), R(-400, 400)>>
        \o (IF np > 0 /\ ~HeadBig(st, h) /\ P(30) THEN HeadPoint(st, h, R(1, np)) ELSE Point(st, FALSE))
        \o <<IF w = 2 THEN R(1, 5) ELSE IF w = 3 THEN RandomElement(kinds) ELSE 0, IF w = 2 THEN R(1, np) ELSE 0, R(0, 2), 250 * R(0, 20)>>)

Emit(o) == PrintT("OP " \o ToJson(o))

Init == n = 0 /\ cs = <<>> /\ age = <<>> /\ op = <<>> /\ past = <<>>

Set(f, i, v) == [k \in DOMAIN f \cup {i} |-> IF k = i THEN v ELSE f[k]]
NewOp(i) == \E a \in {TLCEval(With(R(1, 5), NewArgs))} :
    /\ op' = <<"new", i, a[1], a[2]>> \o DimSeq(a[3])
    /\ cs' = Set(cs, i, NlInit(a[3]))
    /\ age' = Set(age, i, 0)
    /\ past' = Set(past, i, <<>>)
\* the arguments of the last such call with a few of them (and what belongs to them) changed
Slot(o, len, k) == CASE o \in {"xb", "ub", "yb"} -> IF k <= 2 THEN 1 ELSE 2 + ((k - 3) % ((len - 2) \div 2))
                     [] o \in {"xbm", "ubm", "ybm"} -> 1 + ((k - 1) % (len \div 2))
                     \* a constant user function (seed 0) has constants and tolerances of its own
                     [] o \in {"ineq", "eq"} -> 1
                     [] OTHER -> k
Mixed(o, a, b) == IF Len(a) # Len(b) \/ a = <<>> THEN b
    ELSE With(R(1, Len(a)), LAMBDA i : With(IF P(60) THEN i ELSE R(i, Len(a)), LAMBDA j :
         TLCEval([k \in 1..Len(a) |-> IF Slot(o, Len(a), k) \in i..j THEN b[k] ELSE a[k]])))
Args(i, o) == IF o \notin DOMAIN past[i] THEN CfgArgs(cs[i], o)
    ELSE With(R(1, 100), LAMBDA w : IF w <= 15 THEN past[i][o] ELSE IF w <= 35 THEN Mixed(o, past[i][o], CfgArgs(cs[i], o)) ELSE CfgArgs(cs[i], o))
Call(i, o, args) == \E a \in {TLCEval(args)} :
    /\ past' = [past EXCEPT ![i] = Set(Set(@, o, a), "set", o)]
    /\ op' = <<o, i>> \o a
    /\ cs' = [cs EXCEPT ![i] = IF o \in {"last", "stats", "clk"} THEN @ ELSE NlSet(@, o, a)[1]]
    /\ age' = [age EXCEPT ![i] = @ + 1]
SetOp(i, o) == Call(i, o, Args(i, o))
\* the last call once more, with a part of its arguments changed
Tweak(i) == LET o == past[i]["set"] IN Call(i, o, Mixed(o, past[i][o], CfgArgs(cs[i], o)))
\* once in a while from where the controller was last asked (with the same questions of the solver, or not), or from zero
Ask(i) == LET st == cs[i]
               m == NStart(st) IN
    With(R(1, 100), LAMBDA w :
    IF "opt" \in DOMAIN past[i] /\ w <= 10 /\ (HeadBig(st, past[i]["opt"]) => Linear(st)) THEN past[i]["opt"]
    ELSE With(OptHead(st), LAMBDA a :
        IF "opt" \in DOMAIN past[i] /\ w <= 18 THEN SubSeq(past[i]["opt"], 1, m) \o SubSeq(a, m + 1, Len(a))
        ELSE IF w > 90 THEN [k \in 1..Len(a) |-> IF k <= m /\ (w > 94 \/ (w > 92 /\ k <= st.D.nx) \/ (w <= 92 /\ k > st.D.nx)) THEN 0 ELSE a[k]] ELSE a))
OptOp(i) == \E h \in {TLCEval(Ask(i))} : \E t \in {TLCEval(OptTail(cs[i], h))} :
            /\ op' = <<"opt", i>> \o h \o t
            /\ past' = [past EXCEPT ![i] = Set(@, "opt", h)]
            /\ UNCHANGED cs
            /\ age' = [age EXCEPT ![i] = @ + 1]
FreeOp(i) == /\ op' = <<"free", i>>
             /\ cs' = [k \in DOMAIN cs \ {i} |-> cs[k]]
             /\ age' = [k \in DOMAIN cs \ {i} |-> age[k]]
             /\ past' = [k \in DOMAIN cs \ {i} |-> past[k]]

OptPct == IF Profile = "fns" THEN 25 ELSE IF Profile = "bounds" THEN 30 ELSE IF Profile = "time" THEN 60 ELSE 40
Life == IF Profile = "bounds" THEN 30 ELSE IF Profile = "time" THEN 60 ELSE 40
Step(i) == IF i \notin DOMAIN cs THEN NewOp(i)
           ELSE \E w \in {R(1, 100)}, w2 \in {R(1, 100)}, fr \in {R(1, Life)} :
                IF cs[i].fj = 0 /\ w2 <= 30 /\ age[i] < 6 THEN SetOp(i, "obj")
                ELSE IF age[i] > 8 /\ fr = 1 THEN FreeOp(i)
                ELSE IF w <= OptPct THEN OptOp(i)
                ELSE IF w > 92 /\ "set" \in DOMAIN past[i] THEN Tweak(i) ELSE (\E o \in {PickCfg(w2)} : SetOp(i, o))

Next == /\ n < MaxOps
        /\ n' = n + 1
        /\ \E i \in {R(1, NCtl)} : Step(i)
        /\ Emit(op')
Spec == Init /\ [][Next]_vars
=============================================================================
