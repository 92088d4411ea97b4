-------------------------------- MODULE GenLm --------------------------------
(* Script generator for the linear controller: a random walk over the calls of   *)
(* Lm, run by TLC in simulation mode; every step prints the call it takes.        *)
EXTENDS Lm, Json, IOUtils

Profile == IOEnv.PROFILE
MaxOps == atoi(IOEnv.MAXOPS)
NCtl == atoi(IOEnv.NCTL)
StaticOnly == IOEnv.SHAPES = "static"

VARIABLES n, cs, age, op, past      \* past: per controller and call, the arguments it was last made with
vars == <<n, cs, age, op, past>>

With(v, F(_)) == CHOOSE y \in {F(x) : x \in {TLCEval(v)}} : TRUE
R(lo, hi) == RandomElement(lo..hi)
P(percent) == RandomElement(1..100) <= percent
Vec(len, lo, hi) == TLCEval([i \in 1..len |-> RandomElement(lo..hi)])
Sparse(len, lo, hi) == TLCEval([i \in 1..len |-> IF P(30) THEN 0 ELSE RandomElement(lo..hi)])

Shape == <<[nx |-> 2, nu |-> 1, ndu |-> 1, ny |-> 1, ph |-> 3, ch |-> 2],
           [nx |-> 1, nu |-> 2, ndu |-> 2, ny |-> 2, ph |-> 4, ch |-> 4],
           [nx |-> 2, nu |-> 2, ndu |-> 1, ny |-> 1, ph |-> 2, ch |-> 1],
           [nx |-> 1, nu |-> 1, ndu |-> 0, ny |-> 1, ph |-> 1, ch |-> 1],
           [nx |-> 3, nu |-> 2, ndu |-> 2, ny |-> 2, ph |-> 5, ch |-> 3]>>
DimSeq(D) == <<D.nx, D.nu, D.ndu, D.ny, D.ph, D.ch>>
RandDim(ph) == TLCEval([nx |-> R(1, 3), nu |-> R(1, 2), ndu |-> R(0, 2), ny |-> R(1, 3), ph |-> ph, ch |-> R(1, ph)])
RandNew(z) == With(R(1, 5), LAMBDA ph : <<0, 1, RandDim(ph)>>)
\* beyond the sizes above: many steps with few variables, or the other way round
LargeDim(w) == IF w = 1 THEN With(R(8, 14), LAMBDA ph : TLCEval([nx |-> R(1, 2), nu |-> R(1, 2), ndu |-> R(0, 2), ny |-> R(1, 2), ph |-> ph, ch |-> IF P(30) THEN ph ELSE R(1, ph)]))
               ELSE With(R(2, 4), LAMBDA ph : TLCEval([nx |-> R(3, 7), nu |-> R(2, 4), ndu |-> R(0, 4), ny |-> R(2, 5), ph |-> ph, ch |-> R(1, ph)]))
LargeNew(z) == With(R(1, 2), LAMBDA w : <<0, 1, LargeDim(w)>>)
NewArgs(s) == IF StaticOnly THEN <<s, 0, Shape[s]>>
              ELSE IF IOEnv.SHAPES = "large" THEN LargeNew(n)
              ELSE IF P(40) THEN <<s, IF P(50) THEN 0 ELSE 1, Shape[s]>>
              ELSE RandNew(n)

\* ---- arguments.  lower <= upper, except that once in a while the limits cross and the solver refuses them
Cross(z) == P(1)
Lows(len) == TLCEval([i \in 1..len |-> IF P(15) THEN -INFV ELSE R(-12, 4)])
HighOf(lo) == IF P(15) THEN INFV ELSE IF lo = -INFV THEN R(-6, 10) ELSE IF Cross(n) THEN lo - R(1, 3) ELSE IF P(12) THEN lo ELSE lo + R(1, 10)
LoHi(len) == With(Lows(len), LAMBDA lo : lo \o TLCEval([i \in 1..len |-> HighOf(lo[i])]))
Sl(h) == With(R(1, 100), LAMBDA w : IF w <= 20 THEN <<-1, -1>>
            ELSE IF w <= 80 THEN With(R(0, h - 1), LAMBDA a : <<a, R(a + 1, h)>>)
            ELSE <<R(-2, h + 1), R(-2, h + 2)>>)
\* n columns of w numbers (of f): as they are, or with runs of equal columns
Runs(vec, w, len) == IF P(50) THEN vec
    ELSE With(vec, LAMBDA f : With({k \in 2..len : P(40)}, LAMBDA starts : TLCEval([j \in 1..(w * len) |->
         LET c == ((j - 1) \div w) + 1
             from == CHOOSE b \in starts \cup {1} : b <= c /\ \A x \in starts : x <= c => x <= b
         IN f[(from - 1) * w + ((j - 1) % w) + 1]])))
\* limits, column by column (the same runs for both)
LoHiRuns(w, len) == With(LoHi(w * len), LAMBDA v : With(Runs([k \in 1..(w * len) |-> k], w, len), LAMBDA src :
    TLCEval([k \in 1..(2 * w * len) |-> IF k <= w * len THEN v[src[k]] ELSE v[w * len + src[k - w * len]]])))
Wt(len) == TLCEval([i \in 1..len |-> IF P(20) THEN 0 ELSE R(1, 6)])
ScArgs(D) == LoHi(1) \o Sparse(D.nx, -3, 3) \o Sparse(D.nu, -3, 3)

CfgList == CASE Profile = "rows" -> <<"xb", "xb", "ub", "ub", "yb", "yb", "xbm", "ubm", "ybm", "sc", "sc", "sci", "ext", "extm", "model", "dist", "ws", "par">>
             [] Profile = "cost" -> <<"w", "w", "wm", "ref", "ref", "refm", "ext", "ext", "extm", "model", "dist", "par">>
             [] Profile = "life" -> <<"par", "par", "ws", "unsup", "last", "last", "stats", "reset", "clk", "xb", "model", "ext">>
             [] Profile = "time" -> <<"stats", "stats", "stats", "reset", "clk", "par">>
             [] OTHER -> <<"xb", "ub", "yb", "xbm", "ubm", "ybm", "sc", "sci", "w", "wm", "ref", "refm", "ext", "extm", "model", "dist", "par", "ws", "unsup", "last", "stats", "reset", "clk">>

CfgArgs(st, o) == LET D == st.D IN
    CASE o = "xb" -> Sl(D.ph) \o LoHi(D.nx)
      [] o = "ub" -> Sl(D.ch) \o LoHi(D.nu)
      [] o = "yb" -> Sl(D.ph) \o LoHi(D.ny)
      [] o = "xbm" -> LoHiRuns(D.nx, D.ph)
      [] o = "ubm" -> LoHiRuns(D.nu, D.ch)
      [] o = "ybm" -> LoHiRuns(D.ny, D.ph)
      [] o = "sc" -> Sl(D.ph) \o ScArgs(D)
      [] o = "sci" -> <<IF P(90) THEN R(0, D.ph - 1) ELSE R(D.ph, D.ph + 2)>> \o ScArgs(D)
      [] o = "w" -> Sl(D.ph) \o Wt(D.ny) \o Wt(D.nu) \o Wt(D.nu)
      [] o = "wm" -> Runs(Wt(D.ny * D.ph), D.ny, D.ph) \o Runs(Wt(D.nu * D.ph), D.nu, D.ph) \o Runs(Wt(D.nu * D.ph), D.nu, D.ph)
      [] o = "ref" -> Sl(D.ph) \o Vec(D.ny + 2 * D.nu, -9, 9)
      [] o = "refm" -> Runs(Vec(D.ny * D.ph, -9, 9), D.ny, D.ph) \o Runs(Vec(D.nu * D.ph, -9, 9), D.nu, D.ph) \o Runs(Vec(D.nu * D.ph, -9, 9), D.nu, D.ph)
      [] o = "ext" -> Sl(D.ph) \o Vec(D.ndu, -5, 5)
      [] o = "extm" -> Runs(Vec(D.ndu * D.ph, -5, 5), D.ndu, D.ph)
      [] o = "model" -> Sparse(D.nx * D.nx + D.nx * D.nu + D.ny * D.nx, -4, 4)
      [] o = "dist" -> Sparse(D.nx * D.ndu + D.ny * D.ndu, -4, 4)
      [] o = "par" -> TLCEval(<<R(1, 1900), R(1, 2000), R(1, 50), R(1, 50), R(1, 50), R(1, 50), R(0, 1), R(0, 1), R(0, 1), R(1, 5000),
                                IF P(50) THEN 0 ELSE R(1, 80), R(0, 1)>>)
      [] o = "ws" -> TLCEval(<<IF P(20) THEN 0 ELSE R(1, 300), IF P(20) THEN 0 ELSE R(1, 300)>>)
      [] o = "unsup" -> <<R(0, 2)>>
      [] o = "clk" -> <<250 * R(1, 40)>>
      [] OTHER -> <<>>

Codes == {2, -2, 3, 4, -3, -4, -5, -6, -7}
OptArgs(st) == LET D == st.D IN
    With(P(IF Profile \in {"life", "time"} THEN 40 ELSE 80), LAMBDA good :
    Vec(D.nx, -10, 10) \o Vec(D.nu, -6, 6)
    \o TLCEval(<<IF good \/ P(80) THEN 0 ELSE R(1, 2), IF good THEN 1 ELSE RandomElement(Codes), R(-500, 500), R(1, 300), 250 * R(0, 20)>>))

Emit(o) == PrintT("OP " \o ToJson(o))
Init == n = 0 /\ cs = <<>> /\ age = <<>> /\ op = <<>> /\ past = <<>>
Set(f, i, v) == [k \in DOMAIN f \cup {i} |-> IF k = i THEN v ELSE f[k]]
NewOp(i) == \E a \in {TLCEval(With(R(1, 5), NewArgs))} :
    /\ op' = <<"new", i, a[1], a[2]>> \o DimSeq(a[3])
    /\ cs' = Set(cs, i, LmInit(a[3]))
    /\ age' = Set(age, i, 0)
    /\ past' = Set(past, i, <<>>)
\* the arguments of the last such call with a few of them (and what belongs to them) changed
Slot(o, len, k) == CASE o \in {"xb", "ub", "yb"} -> IF k <= 2 THEN 1 ELSE 2 + ((k - 3) % ((len - 2) \div 2))
                     [] o \in {"xbm", "ubm", "ybm"} -> 1 + ((k - 1) % (len \div 2))
                     [] o = "sc" -> IF k <= 2 THEN 1 ELSE IF k <= 4 THEN 3 ELSE k
                     [] o = "sci" -> IF k \in 2..3 THEN 2 ELSE k
                     [] o \in {"w", "ref", "ext"} -> IF k <= 2 THEN 1 ELSE k
                     [] OTHER -> k
Mixed(o, a, b) == IF Len(a) # Len(b) \/ a = <<>> THEN b
    ELSE With(R(1, Len(a)), LAMBDA i : With(IF P(60) THEN i ELSE R(i, Len(a)), LAMBDA j :
         TLCEval([k \in 1..Len(a) |-> IF Slot(o, Len(a), k) \in i..j THEN b[k] ELSE a[k]])))
Args(i, o) == IF o \notin DOMAIN past[i] THEN CfgArgs(cs[i], o)
    ELSE With(R(1, 100), LAMBDA w : IF w <= 15 THEN past[i][o] ELSE IF w <= 35 THEN Mixed(o, past[i][o], CfgArgs(cs[i], o)) ELSE CfgArgs(cs[i], o))
Call(i, o, args) == \E a \in {TLCEval(args)} :
    /\ past' = [past EXCEPT ![i] = Set(Set(@, o, a), "set", o)]
    /\ op' = <<o, i>> \o a
    /\ UNCHANGED cs
    /\ age' = [age EXCEPT ![i] = @ + 1]
SetOp(i, o) == Call(i, o, Args(i, o))
\* the last call once more, with a part of its arguments changed
Tweak(i) == LET o == past[i]["set"] IN Call(i, o, Mixed(o, past[i][o], CfgArgs(cs[i], o)))
\* once in a while from where the controller was last asked, or from zero
OptFrom(i) == With(OptArgs(cs[i]), LAMBDA a : LET m == cs[i].D.nx + cs[i].D.nu IN
    With(R(1, 100), LAMBDA w :
    IF "opt" \in DOMAIN past[i] /\ w <= 12 THEN past[i]["opt"] \o SubSeq(a, m + 1, Len(a))
    ELSE IF w > 90 THEN [k \in 1..Len(a) |-> IF k <= m /\ (w > 94 \/ (w > 92 /\ k <= cs[i].D.nx) \/ (w <= 92 /\ k > cs[i].D.nx)) THEN 0 ELSE a[k]] ELSE a))
OptOp(i) == \E a \in {TLCEval(OptFrom(i))} :
            /\ op' = <<"opt", i>> \o a
            /\ past' = [past EXCEPT ![i] = Set(@, "opt", SubSeq(a, 1, cs[i].D.nx + cs[i].D.nu))]
            /\ UNCHANGED cs
            /\ age' = [age EXCEPT ![i] = @ + 1]
FreeOp(i) == /\ op' = <<"free", i>>
             /\ cs' = [k \in DOMAIN cs \ {i} |-> cs[k]]
             /\ age' = [k \in DOMAIN cs \ {i} |-> age[k]]
             /\ past' = [k \in DOMAIN cs \ {i} |-> past[k]]
OptPct == IF Profile = "life" THEN 50 ELSE IF Profile = "time" THEN 60 ELSE 25
Step(i) == IF i \notin DOMAIN cs THEN NewOp(i)
           ELSE \E w \in {R(1, 100)}, k \in {R(1, Len(CfgList))}, fr \in {R(1, 40)}, early \in {P(60)} :
                            IF age[i] = 0 THEN SetOp(i, "model")
                ELSE IF age[i] = 1 /\ early THEN SetOp(i, "dist")
                ELSE IF age[i] > 8 /\ fr = 1 THEN FreeOp(i)
                ELSE IF w <= OptPct THEN OptOp(i)
                ELSE IF w > 92 /\ "set" \in DOMAIN past[i] THEN Tweak(i) ELSE SetOp(i, CfgList[k])
Next == /\ n < MaxOps
        /\ n' = n + 1
        /\ \E i \in {R(1, NCtl)} : Step(i)
        /\ Emit(op')
Spec == Init /\ [][Next]_vars
=============================================================================
