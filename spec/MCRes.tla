-------------------------------- MODULE MCRes --------------------------------
(* Every short history of calls: what is held is the sum of the footprints, and the  *)
(* measurements the conformance driver makes come out equal.                          *)
EXTENDS Res
CONSTANTS Depth
VARIABLE hist
Calls == {<<c, k, v>> : c \in Ctl, k \in {"new", "set", "solve", "free"}, v \in Cfg}
Init == held = <<>> /\ blocks = 0 /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E call \in Calls :
             /\ call[2] # "set" => call[3] = 0
             /\ LET t == Do(<<held, blocks>>, call) IN held' = t[1] /\ blocks' = t[2]
             /\ hist' = Append(hist, call)
Spec == Init /\ [][Next]_<<vars, hist>>
Exact == blocks = Sum(held)
\* the rounds of the driver
Again == Run(<<held, blocks>>, SelectSeq(hist, LAMBDA c : c[2] # "new"))
Unfreed == \A k \in 1..Len(hist) : hist[k][2] # "free"
GivenBack == Freed(<<held, blocks>>)[2] = 0
Bounded == Unfreed => /\ Again[2] <= Len(hist) * 20
                      /\ Run(Again, SelectSeq(hist, LAMBDA c : c[2] # "new"))[2] = Again[2]
                      /\ Freed(Again)[2] = 0
=============================================================================
