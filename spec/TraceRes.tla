------------------------------- MODULE TraceRes -------------------------------
(* Trace validation for what controllers hold: the blocks of memory in use after     *)
(* rounds of one history.  Kind 0: every controller destroyed; 1: the same            *)
(* controllers taken through it again; 2: those destroyed.  What is acquired once     *)
(* (by the first round of a kind) may stay.                                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES l, empty, full
vars == <<l, empty, full>>
Init == l = 1 /\ empty = -1 /\ full = -1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op # "round" THEN UNCHANGED <<empty, full>>
           ELSE /\ empty' = IF e.kind = 0 /\ e.n <= 2 THEN e.blocks ELSE empty
                /\ full' = IF e.kind = 1 /\ e.n <= 2 THEN e.blocks ELSE full
                /\ LET bad == CASE e.kind = 0 /\ e.n > 2 -> e.blocks # empty
                                [] e.kind = 1 /\ e.n > 2 -> e.blocks # full
                                [] e.kind = 2 -> e.blocks # empty
                                [] OTHER -> FALSE IN
                   bad => PrintT(<<"MISMATCH", l, {<<Focus, IF e.kind = 1 THEN "a controller used again and again holds more" ELSE "destroyed controllers hold memory">>}>>)
Spec == Init /\ [][Next]_vars
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].op = "end"
=============================================================================
