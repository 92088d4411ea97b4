------------------------------- MODULE TraceDisc -------------------------------
(* Trace validation for the discretisation.                                          *)
EXTENDS Disc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES l
Init == l = 1
Check(name, ok) == IF ok THEN {} ELSE {<<Focus, name>>}
\* logged in hundred-thousandths
Same(o, X, S, slack) == /\ Len(o) = Len(X)
                        /\ \A i \in 1..Len(X), j \in 1..Cols(X) : IsNum(o[i][j]) /\
                              Abs(RoundDiv(X[i][j], 1) - (IF S = 1000000 THEN 10 * o[i][j] ELSE IF S = 100000 THEN o[i][j] ELSE RoundDiv(o[i][j], 10))) <= slack
Held(name, e, R, S, h, B, o) ==
    LET X == TLCEval(Mul(R[2], B)) IN Check(name, Same(o, X, S, 10 + (Slack(h) * (1 + e.p \div e.q)) * (1 + MaxOf({SumTo([i \in 1..Len(B) |-> Abs(B[i][j])], Len(B)) : j \in 1..Cols(B)}))))
\* second-order remainders, logged in hundred-thousandths
RestOk(name, o, X) == Check(name, /\ Len(o) = Len(X)
                                  /\ \A i \in 1..Len(X), j \in 1..Cols(X) : IsNum(o[i][j]) /\ Abs(X[i][j] - 10 * o[i][j]) <= 400)
Rests(e) == IF ~(32 * e.p <= e.q /\ e.p > 0) THEN {}
            ELSE LET AF == TLCEval(Mul(e.A, Rest(e.A, e.p, e.q, 1000000))) IN
                 RestOk("state matrix, beyond the first two terms", e.Ar, Mul(e.A, AF))
                 \cup RestOk("input matrix, beyond the first term", e.Br, Mul(AF, e.B))
                 \cup (IF e.kind = 2 THEN RestOk("disturbance matrix, beyond the first term", e.Er, Mul(AF, e.E)) ELSE {})
Bad(e) == LET h == Halvings(e.A, e.p, e.q)
              S == UnitOf(h)
              R == TLCEval(PhiPsi(e.A, e.p, e.q))
          IN Check("state matrix", Same(e.Ad, R[1], S, Slack(h)))
             \cup Held("input matrix", e, R, S, h, e.B, e.Bd)
             \cup (IF e.kind = 2 THEN Held("disturbance matrix", e, R, S, h, e.E, e.Ed) ELSE {})
             \cup (IF e.kind = 3 THEN Check("output matrix", e.Cd = e.C) \cup Check("feedthrough matrix", e.Dd = e.D) ELSE {})
             \cup Rests(e)
             \cup Check("arguments unchanged", e.kept = 1)
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN e.op = "disc" =>
             LET bad == IF e.ok = 0 THEN {<<Focus, "this overload cannot be called with these sizes">>} ELSE TLCEval(Bad(e)) IN
             bad # {} => PrintT(<<"MISMATCH", l, bad>>)
Spec == Init /\ [][Next]_l
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].op = "end"
=============================================================================
