-------------------------------- MODULE GenReal --------------------------------
(* Closed-loop scripts: problems with a certificate, on controllers which live on.  *)
(* The certificate comes first: a plan, multipliers, which constraints are active;     *)
(* targets and offsets follow from the optimality conditions.                           *)
EXTENDS Real, Json, IOUtils
MaxOps == atoi(IOEnv.MAXOPS)
NCtl == atoi(IOEnv.NCTL)
VARIABLES n, dims, op, age
vars == <<n, dims, op, age>>
R(lo, hi) == RandomElement(lo..hi)
P(p) == RandomElement(1..100) <= p
Vec(len, lo, hi) == TLCEval([i \in 1..len |-> RandomElement(lo..hi)])
SVec(len, pz, lo, hi) == TLCEval([i \in 1..len |-> IF P(pz) THEN 0 ELSE RandomElement(lo..hi)])

Shape == <<[nx |-> 2, nu |-> 1, ny |-> 1, ph |-> 3, ch |-> 2, ni |-> 2, ne |-> 1],
           [nx |-> 1, nu |-> 2, ny |-> 2, ph |-> 4, ch |-> 4, ni |-> 1, ne |-> 2],
           [nx |-> 2, nu |-> 2, ny |-> 1, ph |-> 2, ch |-> 1, ni |-> 0, ne |-> 0],
           [nx |-> 1, nu |-> 1, ny |-> 1, ph |-> 1, ch |-> 1, ni |-> 1, ne |-> 1],
           [nx |-> 3, nu |-> 2, ny |-> 2, ph |-> 5, ch |-> 3, ni |-> 2, ne |-> 2]>>
DimSeq(D) == <<D.nx, D.nu, D.ny, D.ph, D.ch, D.ni, D.ne>>
RandDim(ph) == TLCEval([nx |-> R(1, 3), nu |-> R(1, 2), ny |-> R(1, 2), ph |-> ph, ch |-> R(1, ph), ni |-> R(0, 2), ne |-> R(0, 1)])

\* percentage of constraints to make active: about half the degrees of freedom
ActPct(D) == (100 * D.ch * D.nu) \div (3 * (D.ph * D.nx + D.ch * D.nu + D.ni + D.ne))
Mult(len, pct) == TLCEval([i \in 1..len |-> IF P(pct) THEN RandomElement({-3, -2, -1, 1, 2, 3}) ELSE 0])
Lo(z, mu) == IF mu < 0 THEN z ELSE IF P(30) THEN -INFV ELSE z - R(1, 6)
Hi(z, mu) == IF mu > 0 THEN z ELSE IF P(30) THEN INFV ELSE z + R(1, 6)
Zeros(len) == [i \in 1..len |-> 0]

\* part one: everything that can be chosen freely
Free(D, kind) == LET h == D.ph + 1
                     hard == IF P(70) THEN 1 ELSE 0
                     pct == IF kind = 2 THEN 0 ELSE ActPct(D)
                     nu0 == TLCEval([q \in 1..D.ni |-> IF P(pct) THEN R(1, 3) ELSE 0])
                     X == IF kind = 1 THEN TLCEval([i \in 1..(D.ph * D.nx) |-> 2 * R(-2, 2)]) ELSE Vec(D.ph * D.nx, -4, 4)
                     U == Vec(D.ch * D.nu, -3, 3)
                     mux == Mult(D.ph * D.nx, pct)
                     muu == Mult(D.ch * D.nu, pct)
    IN [opt |-> <<kind, IF P(50) THEN 1 ELSE 0, hard, R(1, 100)>>, sx |-> TLCEval([i \in 1..D.nx |-> RandomElement({2, 2, 2, 1, 4, 6})]), su |-> TLCEval([i \in 1..D.nu |-> RandomElement({2, 2, 1, 4, 6})]),
        A |-> SVec(D.nx * D.nx, 40, -1, 1), B |-> SVec(D.nx * D.nu, 25, -2, 2), bil |-> IF kind = 2 THEN Vec(D.nx, -1, 1) ELSE Zeros(D.nx),
        C |-> SVec(D.ny * D.nx, 40, -1, 1), Dm |-> SVec(D.ny * D.nu, 60, -1, 1),
        igx |-> SVec(D.ni * h * D.nx, 60, -1, 1), igu |-> SVec(D.ni * h * D.nu, 60, -1, 1), egx |-> SVec(D.ne * h * D.nx, 60, -1, 1), egu |-> SVec(D.ne * h * D.nu, 60, -1, 1),
        x0 |-> IF kind = 1 THEN TLCEval([i \in 1..D.nx |-> 2 * R(-2, 2)]) ELSE Vec(D.nx, -5, 5), u0 |-> Vec(D.nu, -3, 3),
        X |-> X, U |-> U, mux |-> mux, muu |-> muu, nu |-> nu0, eta |-> IF kind = 2 THEN Zeros(D.ne) ELSE Vec(D.ne, -2, 2), lam |-> IF kind = 2 THEN Zeros(D.ph * D.nx) ELSE Vec(D.ph * D.nx, -3, 3),
        e |-> <<IF hard = 1 THEN 0 ELSE SumTo(nu0, D.ni)>>]
With(p, f, v) == [g \in DOMAIN p \cup {f} |-> IF g = f THEN v ELSE p[g]]
\* part two: bounds, offsets
Bounds(D, p) == LET q == TLCEval([xlo |-> [r \in 1..Len(p.X) |-> Lo(p.X[r], p.mux[r])], xhi |-> [r \in 1..Len(p.X) |-> Hi(p.X[r], p.mux[r])],
                                  ulo |-> [r \in 1..Len(p.U) |-> Lo(p.U[r], p.muu[r])], uhi |-> [r \in 1..Len(p.U) |-> Hi(p.U[r], p.muu[r])],
                                  io |-> [r \in 1..D.ni |-> p.e[1] - UserRow(D, p, p.igx, p.igu, p.X, p.U, r) - (IF p.nu[r] > 0 THEN 0 ELSE R(0, 5))],
                                  eo |-> [r \in 1..D.ne |-> -UserRow(D, p, p.egx, p.egu, p.X, p.U, r)],
                                  d |-> [r \in 1..(D.ph * D.nx) |-> LET k == (r - 1) \div D.nx  i == ((r - 1) % D.nx) + 1 IN
                                            (Lin(D, p, p.X, p.U, k, i) - (IF Kind(p) = 2 THEN Bil(D, p, p.X, p.U, k, i) ELSE 0)) \div Fm(p)]])
                IN [g \in DOMAIN p \cup DOMAIN q |-> IF g \in DOMAIN q THEN q[g] ELSE p[g]]
\* part three: targets.  c anywhere near the outputs; a and the first b of every block from stationarity
Targets1(D, p) == With(p, "c", TLCEval([r \in 1..((D.ph + 1) * D.ny) |-> Yr(D, p, p.X, p.U, (r - 1) \div D.ny, ((r - 1) % D.ny) + 1) - R(-2, 2)]))
Targets2(D, p) == With(With(p, "a", Zeros((D.ph + 1) * D.nx)), "b", TLCEval([r \in 1..((D.ph + 1) * D.nu) |->
                    LET k == (r - 1) \div D.nu IN IF k > 0 /\ Blk(D, k) = Blk(D, k - 1) THEN R(-3, 3) ELSE 0]))
Targets3(D, p) == LET ga == TLCEval([r \in 1..((D.ph + 1) * D.nx) |-> LET k == (r - 1) \div D.nx  i == ((r - 1) % D.nx) + 1 IN
                                        IF k = 0 THEN R(-3, 3) ELSE GradX(D, p, k, i) + p.mux[(k - 1) * D.nx + i]])
                      gb == TLCEval([r \in 1..((D.ph + 1) * D.nu) |-> LET k == (r - 1) \div D.nu  i == ((r - 1) % D.nu) + 1 IN
                                        IF k > 0 /\ Blk(D, k) = Blk(D, k - 1) THEN p.b[r] ELSE GradU(D, p, Blk(D, k), i) + p.muu[Blk(D, k) * D.nu + i]])
                  IN With(With(p, "a", ga), "b", gb)
NewDims(k) == IF P(50) THEN <<k, 0, Shape[k]>> ELSE IF P(30) THEN <<k, 1, Shape[k]>> ELSE <<0, 1, RandDim(R(1, 5))>>
KindOf(z) == LET w == R(1, 10) IN IF w <= 5 THEN 0 ELSE IF w <= 8 THEN 1 ELSE 2

Init == n = 0 /\ dims = <<>> /\ op = <<>> /\ age = <<>>
Set(f, i, v) == [k \in DOMAIN f \cup {i} |-> IF k = i THEN v ELSE f[k]]
NewOp(i) == \E s \in {NewDims(R(1, 5))}, kind \in {KindOf(n)} :
    /\ op' = <<"new", i, s[1], s[2]>> \o DimSeq(s[3]) \o <<kind>>
    /\ dims' = Set(dims, i, <<s[3], kind>>)
    /\ age' = Set(age, i, 0)
Solve(i) == LET D == dims[i][1] IN
    \E f \in {Free(D, dims[i][2])} : \E b \in {Bounds(D, f)} : \E c \in {Targets1(D, b)} : \E t \in {Targets2(D, c)} : \E p \in {Targets3(D, t)} :
        /\ op' = <<"solve", i>> \o Pack(D, p)
        /\ UNCHANGED dims
        /\ age' = [age EXCEPT ![i] = @ + 1]
        /\ Assert(CertOk(D, p), <<"the generated certificate does not hold", p>>)
Next == /\ n < MaxOps
        /\ n' = n + 1
        /\ \E i \in {R(1, NCtl)}, w \in {R(1, 100)} : IF i \notin DOMAIN dims \/ (age[i] > 5 /\ w <= 8) THEN NewOp(i) ELSE Solve(i)
        /\ PrintT("OP " \o ToJson(op'))
Spec == Init /\ [][Next]_vars
=============================================================================
