--------------------------------- MODULE MCNl ---------------------------------
(* Exhaustive check of the nonlinear controller's specification over every       *)
(* history of at most Depth calls with small arguments.  The invariants restate   *)
(* the properties over the history of calls h, independently of how Nl keeps its  *)
(* state.                                                                          *)
EXTENDS Nl

CONSTANTS Depth, PH, CH, Group

Dim == [nx |-> 1, nu |-> 1, ny |-> 1, ph |-> PH, ch |-> CH, ni |-> 1, ne |-> 1]
VARIABLES st, h     \* controller, history of <<op, args, returned value>> (opt: <<"opt", ...>>)
vars == <<st, h>>

\* ---- the calls explored, per group
BoundCalls == {<<"xb", <<s, t, lo, lo + 4>>>> : s \in -1..PH, t \in -1..(PH + 1), lo \in {-2, 3}}
         \cup {<<"ub", <<s, t, lo, lo + 4>>>> : s \in -1..CH, t \in -1..(CH + 1), lo \in {-2, 3}}
         \cup {<<"xbm", [k \in 1..PH |-> 2 * k] \o [k \in 1..PH |-> INFV]>>}
         \cup {<<"ubm", [k \in 1..CH |-> -INFV] \o [k \in 1..CH |-> -2 * k]>>}
         \cup {<<"sx", <<2>>>>, <<"su", <<2>>>>}
ParCalls == {<<"par", <<0, 3, 0, 0, 50, mt, w, hd>>>> : mt \in {0, 2}, w \in {0, 1}, hd \in {0, 1}}
FnCalls == {<<"state", <<1, 5>>>>, <<"state", <<2, -1>>>>, <<"obj", <<3>>>>, <<"ineq", <<0, 512, 2>>>>, <<"ineq", <<0, 512, 3>>>>,
            <<"eq", <<0, 256, -1>>>>, <<"eq", <<0, 0, 1>>>>, <<"out", <<7>>>>}
Few == {<<"xb", <<0, 1, -2, 2>>>>, <<"ub", <<-1, -1, 0, 2>>>>, <<"sx", <<2>>>>, <<"par", <<0, 0, 0, 0, 10, 0, 1, 0>>>>,
        <<"par", <<0, 0, 0, 0, 10, 0, 0, 1>>>>, <<"ineq", <<0, 512, 3>>>>, <<"ineq", <<200, 0, 0>>>>, <<"out", <<7>>>>, <<"reset", <<>>>>}
Calls == IF Group = "bounds" THEN BoundCalls ELSE IF Group = "par" THEN ParCalls \cup FnCalls ELSE Few

\* solver endings: vector, code
Vectors == {[k \in 1..NZ(Dim) |-> k], [k \in 1..NZ(Dim) |-> 2 - k]}
Endings == IF Group = "life" THEN {<<acc, v, pt>> : acc \in {4, 5, -1, -5}, v \in Vectors, pt \in BOOLEAN} ELSE {<<4, CHOOSE v \in Vectors : TRUE, FALSE>>}

Init == st = NlInit(Dim) /\ h = <<>>
Call == \E c \in Calls : LET r == NlSet(st, c[1], c[2]) IN st' = r[1] /\ h' = Append(h, <<c[1], c[2], r[2]>>)
Opt == \E e \in Endings : \E x \in {-3, 4} :
         /\ st' = NlSolve(st, <<x>>, <<1>>, e[1], 16, e[2], e[3], 250)
         /\ h' = Append(h, <<"opt", e, x>>)
Next == Len(h) < Depth /\ (Call \/ Opt)
Spec == Init /\ [][Next]_vars

\* ---- the history, seen independently
Last(S) == IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
Covers(c, what, i) ==       \* the call c sets the bound of horizon index i (from 0)
    \/ /\ c[1] = what /\ c[3] = 1
       /\ \/ (c[2][1] = -1 /\ c[2][2] = -1)
          \/ i \in c[2][1]..(c[2][2] - 1)
    \/ c[1] = (IF what = "xb" THEN "xbm" ELSE "ubm")
SetterOf(what, i) == Last({k \in 1..Len(h) : Covers(h[k], what, i)})
Given(k, i, n) ==           \* <<lo, hi>> given by call k for index i; n: horizon
    IF h[k][1] \in {"xb", "ub"} THEN <<h[k][2][3], h[k][2][4]>> ELSE <<h[k][2][i + 1], h[k][2][n + i + 1]>>
ScaleSet(o) == LET k == Last({j \in 1..Len(h) : h[j][1] = o}) IN IF k = 0 THEN 1 ELSE h[k][2][1]
Over(v, s) == IF IsNum(v) THEN (v * 8) \div s ELSE v     \* half units over a scale, sixteenths

BoundsLastWrite ==
    /\ \A i \in 0..(PH - 1) : LET k == SetterOf("xb", i) IN
          /\ LowerOf(st, i + 1) = (IF k = 0 THEN -INFV ELSE Over(Given(k, i, PH)[1], ScaleSet("sx")))
          /\ UpperOf(st, i + 1) = (IF k = 0 THEN INFV ELSE Over(Given(k, i, PH)[2], ScaleSet("sx")))
    /\ \A i \in 0..(CH - 1) : LET k == SetterOf("ub", i) IN
          /\ LowerOf(st, PH + i + 1) = (IF k = 0 THEN -INFV ELSE Over(Given(k, i, CH)[1], ScaleSet("su")))
          /\ UpperOf(st, PH + i + 1) = (IF k = 0 THEN INFV ELSE Over(Given(k, i, CH)[2], ScaleSet("su")))

\* a slice call is accepted exactly when it is the whole horizon or a non-empty part of it, and else changes nothing
SliceValidated == \A k \in 1..Len(h) : h[k][1] \in {"xb", "ub"} =>
    LET n == IF h[k][1] = "xb" THEN PH ELSE CH
        s == h[k][2][1]
        t == h[k][2][2] IN
    h[k][3] = (IF (s = -1 /\ t = -1) \/ (s >= 0 /\ t <= n /\ t > s) THEN 1 ELSE 0)

LastOf(o) == Last({k \in 1..Len(h) : h[k][1] = o})
Latest ==
    /\ LET k == LastOf("par") IN
         /\ st.par.warm = (k # 0 /\ h[k][2][7] = 1)
         /\ st.par.hard = (k = 0 \/ h[k][2][8] = 1)
         /\ st.par.mt = (IF k = 0 THEN 0 ELSE h[k][2][6])
         /\ st.par.me = (IF k = 0 THEN 100 ELSE h[k][2][5])
         /\ LET hard == k = 0 \/ h[k][2][8] = 1 IN
              /\ LowerOf(st, NZ(Dim)) = (IF hard THEN 0 ELSE -INFV)
              /\ UpperOf(st, NZ(Dim)) = (IF hard THEN 0 ELSE INFV)
    /\ LET k == LastOf("state")
           q == LastOf("eq") IN
         /\ Len(EqRegs(st)) = (IF k = 0 THEN 0 ELSE 1) + (IF q = 0 THEN 0 ELSE 1)
         /\ k # 0 => st.fs.s = h[k][2][1] /\ [j \in 1..PH |-> Tol(h[k][2][2])] \in {EqRegs(st)[j] : j \in 1..Len(EqRegs(st))}
         /\ q # 0 => st.fe.off = h[q][2][3] /\ <<Tol(h[q][2][2])>> \in {EqRegs(st)[j] : j \in 1..Len(EqRegs(st))}
    /\ LET k == LastOf("ineq") IN Len(InRegs(st)) = (IF k = 0 THEN 0 ELSE 1) /\ (k # 0 => InRegs(st)[1] = <<Tol(h[k][2][2])>>)

\* ---- guesses: always inside the bounds; cold ones are the measured state and the given input where the bounds allow
GuessInside == \A x \in {-9, 0, 5} : LET g == GuessOf(st, PlanFor(st, <<x>>, <<-x>>)) IN
    \A k \in 1..NZ(Dim) : LowerOf(st, k) <= UpperOf(st, k) => LowerOf(st, k) <= g[k] /\ g[k] <= UpperOf(st, k)
ColdGuess == (~st.par.warm \/ ~\E k \in 1..Len(h) : h[k][1] = "opt" /\ h[k][2][1] > 0 /\ ~h[k][2][3]) =>
    \A x \in {-9, 0, 5} : LET g == GuessOf(st, PlanFor(st, <<x>>, <<-x>>)) IN
    \A k \in 1..(NZ(Dim) - 1) :
        LET want == IF k <= PH THEN (x * 8) \div st.sx[1] ELSE (-x * 8) \div st.su[1] IN
        (LowerOf(st, k) <= want /\ want <= UpperOf(st, k)) => g[k] = want

\* ---- results
Good(k) == h[k][1] = "opt" /\ h[k][2][1] > 0 /\ ~h[k][2][3]
LastGood == Last({k \in 1..Len(h) : Good(k)})
LastOpt == LastOf("opt")
InputScaleAt(k) == LET j == Last({i \in 1..(k - 1) : h[i][1] = "su"}) IN IF j = 0 THEN 1 ELSE h[j][2][1]
Results ==
    /\ st.cmd[1] = (IF LastGood = 0 THEN 0 ELSE h[LastGood][2][2][PH + 1] * InputScaleAt(LastGood))
    /\ st.slack = (IF LastGood = 0 THEN 0 ELSE h[LastGood][2][2][NZ(Dim)])
    /\ st.has = (LastGood # 0)
    /\ LastOpt # 0 => IF Good(LastOpt)
            THEN st.res.code = h[LastOpt][2][1] /\ st.res.st = (IF h[LastOpt][2][1] = 5 THEN 1 ELSE 0) /\ st.seq # <<>>
            ELSE st.res = [st |-> 3, code |-> -1, cost |-> INFV, feas |-> 0] /\ st.seq = <<>>
    /\ LET r == LastOf("reset") IN Len(st.log) = Cardinality({k \in (r + 1)..Len(h) : h[k][1] = "opt"})
\* a stored plan is the last good solution, as long as no cold solve came in between
PlanStored ==
    (LastGood # 0 /\ (\A k \in (LastGood + 1)..Len(h) : h[k][1] = "opt" => \E j \in 1..(k - 1) : h[j][1] = "par" /\ h[j][2][7] = 1
                                                                          /\ \A i \in j..(k - 1) : h[i][1] = "par" => h[i][2][7] = 1)) =>
    \A k \in 1..(NZ(Dim) - 1) : st.plan[k] = h[LastGood][2][2][k]
        * (LET j == Last({i \in 1..LastGood : h[i][1] = IF k <= PH THEN "sx" ELSE "su"}) IN IF j = 0 THEN 1 ELSE h[j][2][1])
\* a solution violating a user inequality by the tolerance is not feasible
Flags == (LastOpt # 0 /\ Good(LastOpt) /\ st.res.feas = 1 /\ LastOf("ineq") < LastOpt /\ LastOf("ineq") # 0) =>
    LET a == h[LastOf("ineq")][2] IN a[1] = 0 /\ a[3] <= a[2] \div 256
=============================================================================
