---------------------------- MODULE MC_Registry ----------------------------
EXTENDS Registry, TLC, Json
CONSTANTS Names, Classes, MaxSteps
VARIABLES w, k, op
Init == w = [r \in Regs |-> [n \in Names |-> 0]] /\ k = 0 /\ op = [name |-> "init"]
Ops == [name : {"register"}, r : Regs, n : Names, c : Classes]
       \cup [name : {"class", "instance"}, r : Regs, n : Names]
Next == /\ k < MaxSteps /\ k' = k + 1
        /\ \E o \in Ops : LET d == DoR(w, o) IN w' = d.st /\ op' = [f \in DOMAIN o \cup {"out", "got"} |->
              IF f = "out" THEN d.out ELSE IF f = "got" THEN d.got ELSE o[f]]
Spec == Init /\ [][Next]_<<w, k, op>>
View == <<w, k>>
Emit == PrintT(<<"E", ToJson([p |-> [k |-> k, w |-> w], o |-> op', q |-> [k |-> k', w |-> w']])>>)
PropFrame == [][FrameR(w, op') /\ LastWins(w, op')]_<<w, k, op>>
=============================================================================
