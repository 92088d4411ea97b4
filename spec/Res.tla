--------------------------------- MODULE Res ---------------------------------
(* What controllers hold.  A controller's footprint is a function of its            *)
(* configuration, not of how it got there; a call exchanges what was held for the    *)
(* former configuration for what the new one needs; a destroyed one holds nothing.   *)
(* A history is a sequence of calls <<controller, kind, argument>>.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Ctl, Cfg
Foot(c) == 3 * c + 2                   \* any function will do: distinct values tell most

VARIABLES held,                        \* controller -> configuration, for those that exist
          blocks                       \* what is in use, kept up to date call by call
vars == <<held, blocks>>

Sum(h) == LET RECURSIVE S(_)
              S(D) == IF D = {} THEN 0 ELSE LET d == CHOOSE x \in D : TRUE IN Foot(h[d]) + S(D \ {d})
          IN S(DOMAIN h)
Put(h, c, v) == [x \in DOMAIN h \cup {c} |-> IF x = c THEN v ELSE h[x]]
Drop(h, c) == [x \in DOMAIN h \ {c} |-> h[x]]

\* one call on <<h, b>>; solves leave the configuration alone, a failed one too
Do(s, call) ==
    LET h == s[1]  b == s[2]  c == call[1] IN
    CASE call[2] = "new" /\ c \notin DOMAIN h -> <<Put(h, c, 0), b + Foot(0)>>
      [] call[2] = "set" /\ c \in DOMAIN h -> <<Put(h, c, call[3]), b - Foot(h[c]) + Foot(call[3])>>
      [] call[2] = "solve" /\ c \in DOMAIN h -> s
      [] call[2] = "free" /\ c \in DOMAIN h -> <<Drop(h, c), b - Foot(h[c])>>
      [] OTHER -> s
RECURSIVE Run(_, _)
Run(s, calls) == IF calls = <<>> THEN s ELSE Run(Do(s, Head(calls)), Tail(calls))
Freed(s) == Run(s, LET RECURSIVE L(_)
                       L(D) == IF D = {} THEN <<>> ELSE LET d == CHOOSE x \in D : TRUE IN <<<<d, "free", 0>>>> \o L(D \ {d})
                   IN L(DOMAIN s[1]))
=============================================================================
