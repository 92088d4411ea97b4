-------------------------------- MODULE TraceDim --------------------------------
EXTENDS Dim, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES l
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l]
               ok == CASE e.op = "dim" -> e.r = Dim2(e.a[2], e.a[3], e.a[4])
                       [] e.op = "const" -> e.r = Dim2(e.a[2], e.a[3], e.a[4])
                       [] e.op = "nz" -> e.r = NZ(e.a[1], e.a[2], e.a[3], e.a[4])
                       [] OTHER -> TRUE
           IN ~ok => PrintT(<<"MISMATCH", l, {<<Focus, e.op>>}>>)
Spec == Init /\ [][Next]_l
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].op = "end"
=============================================================================
