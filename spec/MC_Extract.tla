----------------------------- MODULE MC_Extract -----------------------------
EXTENDS Extract, TLC, Json
CONSTANTS H, Hours, MaxSteps
VARIABLES files, k, op
Init == files = [a |-> << >>, b |-> << >>] /\ k = 0 /\ op = [name |-> "init"]
T == 0..(H * Hours - 1)
Row == [file : {"a", "b"}, s : T, e : T]
Next == /\ k < MaxSteps /\ k' = k + 1
        /\ \E r \in Row : LET d == Do(files, <<r>>) IN files' = d.files /\ op' = [name |-> "extract", rows |-> <<r>>, out |-> d.out]
Spec == Init /\ [][Next]_<<files, k, op>>
View == <<files, k>>
Emit == PrintT(<<"E", ToJson([p |-> [k |-> k, files |-> files], o |-> op', q |-> [k |-> k', files |-> files']])>>)
InvJoin == \A s \in T, e \in T : s <= e => JoinedIsInterval(s, e, H)
Ranges == {<<a, b>> : a \in T, b \in T} \cap {x \in T \X T : x[1] <= x[2]}
InvGaps == k = 0 => \A s \in T, e \in T, g \in Ranges, h \in Ranges : s <= e => HeldIsPresent(s, e, <<g, h>>, H)
InvFiles == \A n \in DOMAIN files : files[n] = << >> \/ (files[n][1] <= files[n][2] /\ files[n][1] \in T /\ files[n][2] \in T)
=============================================================================
