------------------------------- MODULE TraceEq -------------------------------
(* Product of two runs: every event of TRACE must be the event the same controller  *)
(* shows at the same position in the reference runs REF1.nd .. REFn.nd.             *)
(* C15: TRACE interleaves several controllers, every reference runs one alone.       *)
(* C16: TRACE runs statically sized controllers, the reference run-time sized ones.  *)
(* C23: TRACE runs controllers through the Python bindings, the reference directly.   *)
(* Quantities are logged bit for bit.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
NRef == atoi(IOEnv.REFN)
RECURSIVE Cat(_)
Cat(k) == IF k = 0 THEN <<>> ELSE Cat(k - 1) \o ndJsonDeserialize(IOEnv.REF \o ToString(k) \o ".nd")
Refs == Cat(NRef)
Ids == {Trace[k].i : k \in 1..Len(Trace)} \ {0}
Proj == [i \in Ids |-> SelectSeq(Refs, LAMBDA e : e.i = i)]

\* about the whole process, not one controller
Global == {"live", "mem", "bad"}
VARIABLES l, pos
vars == <<l, pos>>
Init == l = 1 /\ pos = [i \in Ids |-> 0]
Fields(e) == DOMAIN e \ Global
\* "us": durations in microseconds, cut off by one of the two
Near(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] - b[k] \in -2..2
Diff(e, f) == IF Fields(e) # Fields(f) THEN {"fields"} ELSE {k \in Fields(e) : IF k = "us" THEN ~Near(e[k], f[k]) ELSE e[k] # f[k]}
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.i = 0 THEN UNCHANGED pos
       ELSE LET p == pos[e.i] + 1
                bad == IF p > Len(Proj[e.i]) THEN {"missing"} ELSE TLCEval(Diff(e, Proj[e.i][p])) IN
            /\ pos' = [pos EXCEPT ![e.i] = p]
            /\ bad # {} => PrintT(<<"MISMATCH", l, {<<Focus, e.op \o " " \o b>> : b \in bad}>>)
Spec == Init /\ [][Next]_vars
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].op = "end" /\ Refs[Len(Refs)].op = "end"
=============================================================================
