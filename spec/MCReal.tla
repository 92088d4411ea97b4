--------------------------------- MODULE MCReal ---------------------------------
(* The certificate means what it says: for every problem of a grid, no plan of a grid  *)
(* which satisfies the constraints is cheaper than the certified one, and every other   *)
(* one is dearer.                                                                         *)
EXTENDS Real
CONSTANTS Knd, Wide
VARIABLES p, s
D == [nx |-> 1, nu |-> 1, ny |-> 1, ph |-> 2, ch |-> IF Wide THEN 2 ELSE 1, ni |-> 1, ne |-> 0]
S3 == {-1, 0, 1}
Base(kind, hard, A, B, C, Dm, X, U, mux, muu, lam, nu, gx, gu) ==
    LET e == IF hard = 1 THEN 0 ELSE nu
        q == [opt |-> <<kind, 0, hard, 1>>, sx |-> <<2>>, su |-> <<2>>, A |-> <<A>>, B |-> <<B>>, bil |-> <<0>>, C |-> <<C>>, Dm |-> <<Dm>>,
              igx |-> gx, igu |-> gu, egx |-> <<>>, egu |-> <<>>, eo |-> <<>>, x0 |-> <<2>>, u0 |-> <<0>>, X |-> X, U |-> U, mux |-> mux, muu |-> muu, nu |-> <<nu>>, eta |-> <<>>,
              lam |-> lam, e |-> <<e>>,
              xlo |-> [r \in 1..D.ph |-> IF mux[r] < 0 THEN X[r] ELSE X[r] - 2], xhi |-> [r \in 1..D.ph |-> IF mux[r] > 0 THEN X[r] ELSE X[r] + 2],
              ulo |-> [r \in 1..D.ch |-> IF muu[r] < 0 THEN U[r] ELSE -INFV], uhi |-> [r \in 1..D.ch |-> IF muu[r] > 0 THEN U[r] ELSE U[r] + 2]]
        q1 == [f \in DOMAIN q \cup {"io", "d", "c"} |->
                 IF f = "io" THEN <<e - UserRow(D, q, gx, gu, X, U, 1) - (IF nu > 0 THEN 0 ELSE 1)>>
                 ELSE IF f = "d" THEN [k \in 1..D.ph |-> Lin(D, q, X, U, k - 1, 1) \div Fm(q)]
                 ELSE IF f = "c" THEN [k \in 1..(D.ph + 1) |-> Yr(D, q, X, U, k - 1, 1) - 1]
                 ELSE q[f]]
        q2 == [f \in DOMAIN q1 \cup {"a", "b"} |-> IF f \in {"a", "b"} THEN [k \in 1..(D.ph + 1) |-> 0] ELSE q1[f]]
    IN [f \in DOMAIN q2 |->
          IF f = "a" THEN [k \in 1..(D.ph + 1) |-> IF k = 1 THEN 1 ELSE GradX(D, q2, k - 1, 1) + mux[k - 1]]
          ELSE IF f = "b" THEN [k \in 1..(D.ph + 1) |-> IF k > 1 /\ Blk(D, k - 1) = Blk(D, k - 2) THEN 0 ELSE GradU(D, q2, Blk(D, k - 1), 1) + muu[Blk(D, k - 1) + 1]]
          ELSE q2[f]]
\* one step, so that TLC builds and checks the problems in parallel
Init == p = <<>> /\ s \in [hard : {0, 1}, A : {-1, 1}, B : {1, 2}, Dm : {0, 1}, nu : {0, 2}]
Next == /\ p = <<>>
        /\ \E mux \in [1..D.ph -> S3], muu \in [1..D.ch -> S3],
              lam \in IF Wide THEN [1..D.ph -> {-1, 2}] ELSE {<<1, -1>>}, X \in {<<0, 2>>, <<2, -2>>}, U \in [1..D.ch -> {-1, 1}],
              g \in {<<<<0, 1, 0>>, <<0, 0, 0>>>>, <<<<0, -1, 1>>, <<1, 0, 0>>>>} :
              p' = Base(Knd, s.hard, s.A, s.B, 1, s.Dm, X, U, mux, muu, lam, s.nu, g[1], g[2])
        /\ UNCHANGED s
Spec == Init /\ [][Next]_<<p, s>>

\* the certificate construction is sound (kind 1 needs even right-hand sides: odd ones are skipped)
Built == p # <<>> /\ (\A k \in 0..(D.ph - 1) : Lin(D, p, p.X, p.U, k, 1) % Fm(p) = 0) => CertOk(D, p)
Plan == -4..4
G(X, U) == UserRow(D, p, p.igx, p.igu, X, U, 1) + p.io[1]
Fits(X, U) == /\ \A k \in 0..(D.ph - 1) : Lin(D, p, X, U, k, 1) = Fm(p) * p.d[k + 1]
              /\ \A r \in 1..D.ph : p.xlo[r] <= X[r] /\ X[r] <= p.xhi[r]
              /\ \A r \in 1..D.ch : p.ulo[r] <= U[r] /\ U[r] <= p.uhi[r]
              /\ Hard(p) => G(X, U) <= 0
Best == p # <<>> /\ CertOk(D, p) => \A U \in [1..D.ch -> Plan] : \A X \in [1..D.ph -> Plan] :
            Fits(X, U) => LET e == IF Hard(p) \/ G(X, U) < 0 THEN 0 ELSE G(X, U)
                              c == Cost2(D, p, X, U, e)  b == Cost2(D, p, p.X, p.U, p.e[1]) IN
                          c >= b /\ (c = b => X = p.X /\ U = p.U)
=============================================================================
