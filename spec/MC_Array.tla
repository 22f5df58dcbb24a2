------------------------------ MODULE MC_Array ------------------------------
EXTENDS Array, TLC, Json
CONSTANTS Positions, Sources, Lens, Delays, Sizes, OpNames, MaxSteps, Spoil
VARIABLES a, k, op

Chan(x, len) == [i \in 1..len |-> 7 * x + ((3 * i * i + x) % 11) + i]
Sens(x, len, d) == [x |-> x, w |-> Chan(x, len), n |-> 1, t0 |-> -d, dt |-> 1]
Seqs == UNION {[1..n -> Positions] : n \in Sizes}
Empty(src) == [r |-> None, src |-> src]
Init == k = 0 /\ op = [name |-> "init"] /\ \E src \in Sources : a = Empty(src)
Spoiled(ss, how) == CASE how = "none" -> ss
                      [] how = "n" -> [ss EXCEPT ![Len(ss)].n = 2]
                      [] how = "t0" -> [ss EXCEPT ![1].t0 = @ - 4]
                      [] how = "dt" -> [ss EXCEPT ![Len(ss)].dt = 2]
                      [] how = "len" -> [ss EXCEPT ![Len(ss)].w = Append(@, 5)]
Build1 == /\ k = 0
          /\ \E xs \in Seqs, len \in Lens, d \in Delays, how \in (IF Spoil THEN {"none", "n", "t0", "dt", "len"} ELSE {"none"}) :
               /\ (how = "none" \/ (Len(xs) = 3 /\ \A i, j \in 1..3 : i # j => xs[i] # xs[j]))
               /\ LET ss == Spoiled([i \in DOMAIN xs |-> Sens(xs[i], len, d)], how)
                      b == Build(ss, a.src)
                  IN /\ a' = b.a
                     /\ op' = [name |-> "build", ss |-> ss, out |-> b.out,
                               views |-> IF b.out = "ok" THEN Views(b.a) ELSE 0]
          /\ k' = 1
Times(r) == {r.t0 - 8, r.t0, r.t0 + 8, LastTime(r) + 4}
Lines(r) == {<< >>} \cup {<<-2, t1, 2, t2>> : t1 \in Times(r), t2 \in Times(r)}
                    \cup {<<4, t1 + 2, 0, t2>> : t1 \in {r.t0, r.t0 + 4}, t2 \in {r.t0 + 8, LastTime(r)}}
Step == /\ k >= 1 /\ k < MaxSteps /\ a.r.kind = "array"
        /\ \E o \in (IF "offsets" \in OpNames THEN {[name |-> "offsets", lo |-> lo, hi |-> hi] : lo \in {-1, 0, 2, 3, 5}, hi \in {2, 4, 5, 8, 1000000}} ELSE {})
                    \cup (IF "mute" \in OpNames THEN {[name |-> "mute", sl |-> sl, el |-> el] : sl \in Lines(a.r), el \in Lines(a.r)} ELSE {})
                    \cup (IF "trim" \in OpNames THEN {[name |-> "trim", a |-> a.r.t0 + 4, b |-> LastTime(a.r)], [name |-> "trim", a |-> a.r.t0, b |-> LastTime(a.r) + 4]} ELSE {}) :
             /\ (o.name = "mute" => Proper(a.r, o.sl, o.el))
             /\ (o.name = "trim" => NSamp(a.r) > 3)
             /\ LET t == DoA(a, o) IN
                  /\ a' = t.st
                  /\ op' = o @@ [out |-> t.out]
        /\ k' = k + 1
Next == Build1 \/ Step
Spec == Init /\ [][Next]_<<a, k, op>>
View == <<a, k>>
Emit == PrintT(<<"E", ToJson([p |-> [k |-> k, a |-> a], o |-> op', q |-> [k |-> k', a |-> a']])>>)
Built == a.r.kind = "array"
InvSorted == Built => Sorted(a) /\ NearToFar(a)
PropAssoc == [][(op'.name = "build" /\ op'.out = "ok") => Associated(op'.ss, a')]_<<a, k, op>>
InvSelect == Built /\ "offsets" \in OpNames => \A lo \in {-1, 0, 2, 5}, hi \in {2, 5, 8} : SelectExact(a, lo, hi)
InvMute == Built /\ "mute" \in OpNames => \A sl \in Lines(a.r), el \in Lines(a.r) : Proper(a.r, sl, el) => MuteExact(a, sl, el)
=============================================================================
