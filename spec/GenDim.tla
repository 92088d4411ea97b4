--------------------------------- MODULE GenDim ---------------------------------
(* Every operator, operand pair and combination of operand kinds                      *)
(* dim kind op a b     kind 0: two dimensions, 1: dimension and integer, 2: integer and dimension *)
EXTENDS Dim, Sequences, TLC, Json, IOUtils
Max == atoi(IOEnv.MAX)
VARIABLES n
\* the small numbers, and some around the limits of narrower integers (products fit 32 bits)
Big == <<100, 127, 128, 255, 256, 1000, 32767, 32768, 46340>>
N == Max + 2 + Len(Big)
Val(k) == IF k < Max + 2 THEN k - 1 ELSE Big[k - Max - 1]
Total == 9 * N * N
Init == n = 0
Next == /\ n < Total
        /\ n' = n + 1
        /\ PrintT("OP " \o ToJson(<<"dim", (n \div 3) % 3, (n % 3) + 1, Val((n \div 9) % N), Val((n \div 9) \div N)>>))
Spec == Init /\ [][Next]_n
=============================================================================
