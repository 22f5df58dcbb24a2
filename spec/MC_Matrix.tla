----------------------------- MODULE MC_Matrix -----------------------------
(* Every pattern of missing values of a small matrix.                        *)
EXTENDS Matrix, TLC, Json
CONSTANTS R, C
VARIABLES k, op
Mats == UNION {{[r \in 1..a |-> [c \in 1..b |-> IF f[r, c] THEN 10 * r + c ELSE Nan]] : f \in [(1..a) \X (1..b) -> BOOLEAN]} : a \in 1..R, b \in 1..C}
XX(m) == [c \in 1..Cols(m) |-> 5 * c]
Th == {<<0, 1>>, <<1, 2>>, <<2, 3>>, <<3, 4>>, <<1, 1>>}
Po == {<<0, 1>>, <<1, 2>>, <<4, 5>>}
Init == k = 0 /\ op = [name |-> "init"]
Next == /\ k = 0 /\ k' = 1
        /\ \E m \in Mats :
             \/ op' = [name |-> "sort", m |-> m, starts |-> StartsSorted(m), same |-> TRUE]
             \/ \E th \in Th : Regionable(m) /\ op' = [name |-> "regions", m |-> m, th |-> th, regions |-> Regions(m, th)]
             \/ \E po \in Po, ps \in Po, cs \in {0, 2, 3} : op' = [name |-> "drop", m |-> m, po |-> po, ps |-> ps, cs |-> cs, left |-> Drop(XX(m), m, po, ps, cs), xx |-> XX(m)]
Spec == Init /\ [][Next]_<<k, op>>
Emit == PrintT(<<"E", ToJson([p |-> [k |-> k], o |-> op', q |-> [k |-> k']])>>)
InvRegions == op.name = "regions" => GoodRegions(op.m, op.regions, op.th)
\* what is left has no column below the required count unless a later row drop made it so, and rows keep their entries
InvDrop == op.name = "drop" => /\ \A r \in 1..Len(op.left.m) : Len(op.left.m[r]) = Len(op.left.xx)
                              /\ Len(op.left.m) <= Len(op.m) /\ Len(op.left.xx) <= Len(op.xx)
                              /\ AllNum(op.left.m) <= AllNum(op.m)
InvNothingToDrop == op.name = "drop" /\ op.po[1] = 0 /\ op.ps[1] = 0 /\ op.cs = 0 => op.left.m = op.m
=============================================================================
