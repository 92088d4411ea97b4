------------------------------- MODULE TraceLog -------------------------------
(* Trace validation for the logger: what every call added to every stream.          *)
EXTENDS Log, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES l, st
vars == <<l, st>>
Init == l = 1 /\ st = LogInit
Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
\* the library itself logged: only to the current stream, every message tagged, nothing at NONE
LibOk(s, o) == /\ \A k \in 1..NStreams \ {s.str} : o[k] = ""
               /\ (s.lvl = NONE => o[s.str] = "")
               /\ (o[s.str] # "" => Starts(o[s.str], Tag(s)))
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "end" THEN UNCHANGED st
           ELSE LET n == LogSet(st, e.op, e.a)
                    bad == (IF e.op = "lib" THEN ~LibOk(st, e.o) ELSE e.o # n[2]) \/ e.r # 1 IN
                /\ st' = n[1]
                /\ bad => PrintT(<<"MISMATCH", l, {<<Focus, "text written by " \o e.op>>}>>)
Spec == Init /\ [][Next]_vars
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].op = "end"
=============================================================================
