---------------------------- MODULE MC_Settings ----------------------------
(* Every pair of options, each with two values.                              *)
EXTENDS Settings, TLC, Json
VARIABLES given, k, op
Vals(o) == CASE Opt[o].type = "float" -> {3, -7} [] Opt[o].type = "bool" -> {0, 1} [] Opt[o].type = "int" -> {7, 31}
             [] Opt[o].type = "str" -> {1, 2} [] Opt[o].type = "dict" -> {0, 3}
Init == given = [x \in {} |-> 0] /\ k = 0 /\ op = [name |-> "init"]
Next == /\ k < 2 /\ k' = k + 1
        /\ \E o \in Options : \E v \in Vals(o) :
             /\ given' = [x \in DOMAIN given \cup {o} |-> IF x = o THEN v ELSE given[x]]
             /\ op' = [name |-> "give", o |-> o, v |-> v]
Spec == Init /\ [][Next]_<<given, k, op>>
View == <<given, k>>
Emit == PrintT(<<"E", ToJson([p |-> [k |-> k, g |-> given, d |-> Dict(given)], o |-> op', q |-> [k |-> k', g |-> given', d |-> Dict(given')]])>>)
InvPlaces == OnePlaceEach
PropIndependent == [][Independent(given, op'.o, op'.v)]_<<given, k, op>>
=============================================================================
