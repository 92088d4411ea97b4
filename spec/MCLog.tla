-------------------------------- MODULE MCLog --------------------------------
(* The logger specification means what the property says: over every sequence of    *)
(* calls, with ghost variables remembering how each message was opened.               *)
EXTENDS Log
CONSTANT Depth
VARIABLES st, outs, n, m      \* m: the open message: severity, the threshold, prefix and stream when opened, its parts, whether anything was set since
vars == <<st, outs, n, m>>
NoM == [sev |-> 0, lvl |-> NORMAL, pre |-> 1, str |-> 1, body |-> "", kept |-> FALSE]
Do(o, a) == LET r == LogSet(st, o, a) IN
    /\ st' = r[1]
    /\ outs' = [k \in 1..NStreams |-> outs[k] \o r[2][k]]
    /\ m' = IF o = "log" THEN [sev |-> a[1], lvl |-> st.lvl, pre |-> st.pre, str |-> st.str, body |-> "", kept |-> TRUE]
            ELSE IF o = "part" THEN [m EXCEPT !.body = @ \o Parts[a[1]]]
            ELSE [m EXCEPT !.kept = FALSE]
    /\ n' = n + 1
Init == st = LogInit /\ outs = Nothing /\ n = 0 /\ m = NoM
Next == n < Depth /\ \/ \E v \in 0..3 : Do("level", <<v>>)
                     \/ \E p \in {1, 3} : Do("prefix", <<p>>)
                     \/ \E s \in 2..3 : Do("stream", <<s>>)
                     \/ Do("reset", <<>>)
                     \/ \E t \in 0..2 : Do("log", <<t>>)
                     \/ \E p \in {1, 4} : Do("part", <<p>>)
Spec == Init /\ [][Next]_vars
EndsWith(t, s) == Len(t) >= Len(s) /\ SubSeq(t, Len(t) - Len(s) + 1, Len(t)) = s
\* an enabled message is there in full, tagged with the prefix it was opened with, on the stream it was opened on
Written == (m.kept /\ m.lvl <= m.sev) =>
    EndsWith(outs[m.str], "[MPC++" \o (IF m.pre = 1 THEN "" ELSE " " \o Prefixes[m.pre]) \o "] " \o m.body)
\* what is not enabled writes nothing; only the current stream is written to; setters write nothing
Silent == [][ /\ \A k \in 1..NStreams : outs'[k] # outs[k] => k = st.str
              /\ (outs' # outs => st'.lvl <= st'.typ /\ st.lvl # NONE)
              /\ (m'.kept = FALSE => outs' = outs \/ m' = m \/ m'.body # m.body) ]_vars
ResetMeans == [][ (st'.lvl = NORMAL /\ st'.pre = 1) \/ st' = st \/ st'.str # st.str \/ st'.typ # st.typ \/ (st'.lvl = st.lvl) # (st'.pre = st.pre) ]_vars
=============================================================================
