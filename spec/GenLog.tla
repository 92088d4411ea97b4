-------------------------------- MODULE GenLog --------------------------------
(* Logger scripts.  MODE "walk": a random walk.  MODE "all": every sequence of      *)
(* MAXOPS calls over a small alphabet, one after the other.                          *)
EXTENDS Log, Json, IOUtils
Mode == IOEnv.MODE
MaxOps == atoi(IOEnv.MAXOPS)
First == atoi(IOEnv.FIRST)          \* "all": the first call
VARIABLES n, op, open
vars == <<n, op, open>>
R(lo, hi) == RandomElement(lo..hi)
Emit(o) == PrintT("OP " \o ToJson(o))
\* ---- walk.  the last argument of the setters: through which interface (0 logger, 1, 2 nonlinear, 3, 4 linear controller)
Walk(w) == IF w <= 10 THEN <<"level", R(0, 3), R(0, 4)>>
      ELSE IF w <= 20 THEN <<"prefix", R(1, Len(Prefixes)), R(0, 4)>>
      ELSE IF w <= 27 THEN <<"stream", R(1, NStreams)>>
      ELSE IF w <= 31 THEN <<"reset">>
      ELSE IF w <= 34 THEN <<"lib", R(1, 7)>>
      ELSE IF w <= 50 THEN <<"log", R(0, 2), R(0, 1)>>
      ELSE IF w <= 60 THEN <<"msg", R(0, 2), R(1, Len(Parts)), R(1, Len(Parts))>>
      ELSE IF open THEN <<"part", R(1, Len(Parts)), R(0, 1)>> ELSE <<"log", R(0, 2), R(0, 1)>>
\* ---- all
Alphabet == <<<<"level", 0, 0>>, <<"level", 1, 1>>, <<"level", 2, 3>>, <<"level", 3, 0>>, <<"prefix", 1, 0>>, <<"prefix", 3, 2>>,
              <<"stream", 2>>, <<"stream", 3>>, <<"reset">>, <<"log", 0, 0>>, <<"log", 1, 1>>, <<"log", 2, 0>>, <<"part", 1, 1>>, <<"part", 7, 0>>>>
NA == Len(Alphabet)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Total == MaxOps * Pow(NA, MaxOps - 1)
\* call k (from 0) of the concatenation of all sequences which start with First
AllOp(k) == LET q == k \div MaxOps
                p == k % MaxOps IN
            IF p = 0 THEN Alphabet[First] ELSE Alphabet[((q \div Pow(NA, p - 1)) % NA) + 1]
Init == n = 0 /\ op = <<>> /\ open = TRUE
Next == /\ n < (IF Mode = "all" THEN Total ELSE MaxOps)
        /\ n' = n + 1
        /\ \E o \in {IF Mode = "all" THEN AllOp(n) ELSE Walk(R(1, 100))} :
             /\ op' = o
             /\ open' = IF o[1] = "lib" THEN FALSE ELSE IF o[1] \in {"log", "msg"} THEN TRUE ELSE open
        /\ Emit(op')
Spec == Init /\ [][Next]_vars
=============================================================================
