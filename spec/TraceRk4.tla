------------------------------- MODULE TraceRk4 -------------------------------
(* Trace validation for the integrator: [field, dim, units, h, steps, t, x..] -> r    *)
EXTENDS Rk4, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES l
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN e.op = "run" =>
           LET a == e.a
               x == SubSeq(a, 7, 6 + a[2])
               bad == (IF e.r = Run(a[1], a[6], x, a[4], a[5]) THEN {} ELSE {<<Focus, "result of the integration">>})
                      \cup (IF e.in = x THEN {} ELSE {<<Focus, "initial condition changed">>})
           IN bad # {} => PrintT(<<"MISMATCH", l, bad>>)
Spec == Init /\ [][Next]_l
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].op = "end"
=============================================================================
