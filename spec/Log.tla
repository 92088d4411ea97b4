--------------------------------- MODULE Log ---------------------------------
(* The process-wide logger.  State: threshold, prefix, current stream, severity of  *)
(* the message being written.  Calls through the controllers' setters are the same    *)
(* actions.  Every action also says what text reaches which stream.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NStreams == 3                    \* stream 1 is the standard output
Prefixes == <<"", "a", "robot 1", "[x] ", "MPC++ - a somewhat longer prefix, with (punctuation)">>
\* what a part of a message looks like when written
Parts == <<"hello", "two words", "42", "-7", "2.5", "c", "\n", "", "1 2 3", "4000000000", "1", "  indented ">>
DEEP == 0  NORMAL == 1  ALERT == 2  NONE == 3
NoMsg == -1                      \* after a call of the library which may have logged anything

\* a stream position before any message counts as the lowest severity
LogInit == [lvl |-> NORMAL, pre |-> 1, str |-> 1, typ |-> 0]
Shown(s) == s.lvl <= s.typ
Tag(s) == "[MPC++" \o (IF Prefixes[s.pre] = "" THEN "" ELSE " " \o Prefixes[s.pre]) \o "] "
Nothing == [k \in 1..NStreams |-> ""]
At(s, t) == [Nothing EXCEPT ![s.str] = t]

\* <<next state, text per stream>>
LogSet(s, o, a) ==
    CASE o = "level" -> <<[s EXCEPT !.lvl = a[1]], Nothing>>
      [] o = "prefix" -> <<[s EXCEPT !.pre = a[1]], Nothing>>
      [] o = "stream" -> <<[s EXCEPT !.str = a[1]], Nothing>>
      [] o = "reset" -> <<[s EXCEPT !.lvl = NORMAL, !.pre = 1], Nothing>>
      [] o = "log" -> LET t == [s EXCEPT !.typ = a[1]] IN <<t, IF Shown(t) THEN At(t, Tag(t)) ELSE Nothing>>
      [] o = "part" -> <<s, IF Shown(s) THEN At(s, Parts[a[1]]) ELSE Nothing>>
      [] o = "msg" -> LET t == [s EXCEPT !.typ = a[1]] IN     \* a whole message in one expression
                      <<t, IF Shown(t) THEN At(t, Tag(t) \o Parts[a[2]] \o Parts[a[3]] \o "\n") ELSE Nothing>>
      [] o = "lib" -> <<[s EXCEPT !.typ = NoMsg], Nothing>>
=============================================================================
