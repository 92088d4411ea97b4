-------------------------------- MODULE MCBind --------------------------------
(* The promised interface is unambiguous: in whatever order the overloads of a name   *)
(* are registered, every call Python code makes of one of them reaches it.             *)
EXTENDS Bind
VARIABLES cls, name, order
vars == <<cls, name, order>>
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : f[i] = f[j] => i = j}
Init == /\ cls \in DOMAIN Offered
        /\ name \in DOMAIN Offered[cls]
        /\ order \in Perms(Len(Offered[cls][name]))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Os == Offered[cls][name]
Unambiguous == \A k \in 1..Len(Os) : Reaches([j \in 1..Len(Os) |-> Os[order[j]]], Os[k])
\* without one of its overloads a name refuses that overload's calls, it does not take them for another's
Needed == \A k \in 1..Len(Os) : LET rest == SelectSeq(Os, LAMBDA o : o # Os[k]) IN \A a \in Calls(Os[k]) : Reached(rest, a) = 0
===============================================================================
