------------------------------- MODULE TraceBind -------------------------------
(* Trace validation for the Python module: what it registers offers what is promised, *)
(* and every call Python code makes reaches the function it is meant for.              *)
EXTENDS Bind, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES l, defs, attrs, vals, loaded
vars == <<l, defs, attrs, vals, loaded>>
Init == l = 1 /\ defs = <<>> /\ attrs = {} /\ vals = {} /\ loaded = FALSE
Of(c, n) == SelectSeq(defs, LAMBDA e : e.cls = c /\ e.name = n)
Bad == (IF loaded THEN {} ELSE {"the module does not load"})
  \cup UNION {{c \o "." \o n : n \in {m \in DOMAIN Offered[c] : \E k \in 1..Len(Offered[c][m]) : ~Reaches(Of(c, m), Offered[c][m][k])}} : c \in DOMAIN Offered}
  \cup UNION {{c \o "." \o n : n \in {m \in Attrs[c] : ~\E a \in attrs : a[1] = c /\ a[2] = m /\ (c \in Settable => a[3] = 1)}} : c \in DOMAIN Attrs}
  \cup UNION {{c \o "." \o n : n \in {m \in Values[c] : <<c, m>> \notin vals}} : c \in DOMAIN Values}
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       /\ loaded' = (loaded \/ (e.op = "load" /\ e.ok = 1))
       /\ defs' = IF e.op = "def" THEN Append(defs, [cls |-> e.cls, name |-> e.name, sig |-> e.sig, dflt |-> e.dflt]) ELSE defs
       /\ attrs' = IF e.op = "attr" THEN attrs \cup {<<e.cls, e.name, e.rw>>} ELSE attrs
       /\ vals' = IF e.op = "value" THEN vals \cup {<<e.cls, e.name>>} ELSE vals
       /\ (e.op = "end" /\ Bad # {}) => PrintT(<<"MISMATCH", l, {<<Focus, "not offered as promised: " \o b>> : b \in Bad}>>)
Spec == Init /\ [][Next]_vars
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].op = "end"
===============================================================================
