------------------------------ MODULE MC_Stats ------------------------------
(* Every pattern of values of three members at two locations, built up one   *)
(* member at a time.                                                         *)
EXTENDS Reduce, TLC, Json
VARIABLES ms, k, op
Vals == {Nan, 0, 1, 3}
Pts(a, b) == (IF a = Nan THEN << >> ELSE <<<<1, 10 + a>>>>) \o (IF b = Nan THEN << >> ELSE <<<<2, 10 + b>>>>)
Init == ms = << >> /\ k = 0 /\ op = [name |-> "init"]
XX == <<1, 2>>
Col(j) == Column(ms', XX[j])
Kp(need) == Kept(ms', XX, need, 1)
Out(need) == [name |-> "stats", need |-> need, out |-> IF Len(ms') < 3 THEN "ValueError" ELSE "ok",
              gotxx |-> IF Len(ms') < 3 THEN << >> ELSE Kp(need),
              means |-> IF Len(ms') < 3 THEN << >>
                        ELSE [j \in 1..Len(Kp(need)) |-> LET c == Column(ms', Kp(need)[j]) IN <<SumC(c, Len(c)), Count(c)>>]]
Next == /\ Len(ms) < 3 /\ k' = k + 1
        /\ \E a \in Vals, b \in Vals : ms' = Append(ms, Pts(a, b))
        /\ \E need \in {0, 1, 2, 3} : op' = Out(need)
Spec == Init /\ [][Next]_<<ms, k, op>>
View == <<ms, k>>
Emit == PrintT(<<"E", ToJson([p |-> [k |-> k, ms |-> ms], o |-> op', q |-> [k |-> k', ms |-> ms']])>>)
\* P27: what is kept has enough values, what is left out has not
PropExactly == [][op'.out = "ok" => \A j \in 1..2 :
                   (\E i \in 1..Len(op'.gotxx) : op'.gotxx[i] = XX[j]) <=> (Count(Col(j)) >= op'.need /\ Count(Col(j)) > 0)]_<<ms, k, op>>
=============================================================================
