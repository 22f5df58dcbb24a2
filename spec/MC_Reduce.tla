----------------------------- MODULE MC_Reduce -----------------------------
(* All ways two rows of two samples can be valid and ordered by power, then  *)
(* rejections.                                                               *)
EXTENDS Reduce, TLC, Json
CONSTANTS WithPower
VARIABLES m, k, op
PowerSets == {<<a, b, c, d>> : a \in {4, 8}, b \in {4, 8}, c \in {4, 8, 12}, d \in {4, Nan}}
\* frequency 2, 4; velocity 100..
Make(pw, vel) == [id |-> "m", attrs |-> IF WithPower THEN <<"frequency", "velocity", "power">> ELSE <<"frequency", "velocity">>, rows |-> 2, cols |-> 2,
                  data |-> [x \in {"frequency", "velocity"} \cup (IF WithPower THEN {"power"} ELSE {}) |->
                              CASE x = "frequency" -> <<8, 16, 8, 16>> [] x = "velocity" -> vel [] OTHER -> pw],
                  valid |-> [i \in 1..4 |-> IF vel[i] = Nan THEN 0 ELSE 1]]
Init == /\ \E pw \in PowerSets : \E vel \in {<<400, 800, 1600, 3200>>, <<400, Nan, 1600, 800>>} :
             m = Make(IF WithPower THEN pw ELSE <<4, 4, 4, 4>>, vel)
        /\ k = 0 /\ op = [name |-> "init"]
Cuts == {[name |-> "out", m |-> 0, attr |-> "velocity", lims |-> b] : b \in {<<None, <<1600, 4>>>>, <<<<500, 4>>, None>>, <<<<700, 4>>, <<1000, 4>>>>}}
        \cup {[name |-> "out", m |-> 0, attr |-> "frequency", lims |-> <<None, <<9, 4>>>>]}
RejectStep == \E c \in Cuts : m' = Rejected(m, c) /\ op' = c
ReduceStep == /\ m' = m
              /\ \/ \E a \in {m.attrs[i] : i \in 1..Len(m.attrs)} \cup {"slowness", "wavelength"} :
                      op' = [name |-> "reduce", attr |-> a, vals |-> [j \in 1..Len(Reduced(m)) |-> Val(m, a, Reduced(m)[j])]]
                 \/ \E xt \in {"frequency"} : \E yt \in {"velocity", "slowness"} :
                      op' = [name |-> "array", xt |-> xt, yt |-> yt, xx |-> <<4, 8, 12, 16, 18>>,
                             vals |-> [n \in 1..5 |-> At(Points(m, xt, yt), <<4, 8, 12, 16, 18>>[n])]]
Next == k < 3 /\ k' = k + 1 /\ (RejectStep \/ ReduceStep)
Spec == Init /\ [][Next]_<<m, k, op>>
View == <<m, k>>
Emit == PrintT(<<"E", ToJson([p |-> [k |-> k, m |-> m], o |-> op', q |-> [k |-> k', m |-> m']])>>)
\* P26: a chosen peak is valid, and no valid peak of its sample is stronger
InvStrongest == \A j \in 1..Len(Reduced(m)) : LET i == Reduced(m)[j] IN
   /\ m.valid[i] = 1
   /\ \A r \in 1..m.rows : LET n == Cell(m, r, ((i - 1) % m.cols) + 1) IN
        (m.valid[n] = 1 /\ m.data[Decides(m)][n] # Nan) => m.data[Decides(m)][n] <= m.data[Decides(m)][i]
InvOnePerSample == Len(Reduced(m)) <= m.cols
=============================================================================
