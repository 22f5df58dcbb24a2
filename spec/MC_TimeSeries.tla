--------------------------- MODULE MC_TimeSeries ---------------------------
(* Exhaustive exploration of TimeSeries for small records; every transition  *)
(* is emitted for replay in the real library.                                *)
EXTENDS TimeSeries, TLC, Json
CONSTANTS Kinds, Lens, Delays, Dts, Targets, Counts, OpNames, MaxSteps, MaxLen, Off
VARIABLES s, k, op

NCh(kind) == IF kind = "array" THEN 2 ELSE 1
Start(kind, len, d, n, dt, ph) ==
  [kind |-> kind, w |-> [c \in 1..NCh(kind) |-> [i \in 1..len |-> n * (ph * 10 + 3 * i + 20 * (c - 1) + ((i * i) % 5))]],
   t0 |-> -4 * d, delay |-> -4 * d, n |-> n, mult |-> 1, dt |-> dt,
   pos |-> IF kind = "ts" THEN << >> ELSE IF kind = "array" THEN <<0, 2>> ELSE <<ph>>]

Init == /\ k = 0 /\ op = [name |-> "init"]
        /\ \E kind \in Kinds, len \in Lens, d \in Delays, n \in Counts, dt \in Dts :
              \/ s = <<Start(kind, len, d, n, dt, 1), None>>
              \/ /\ "stack" \in OpNames
                 /\ \E len2 \in Lens, d2 \in Delays, n2 \in Counts, dt2 \in Dts, ph \in {1, 2} :
                      s = <<Start(kind, len, d, n, dt, 1), [Start(kind, len2, d2, n2, dt2, ph) EXCEPT
                              !.w = [c \in 1..NCh(kind) |-> [i \in 1..len2 |-> n2 * (5 - i + 7 * c)]]]>>

Live == {i \in {1, 2} : s[i].kind # "none"}
Bounds(r) == {r.t0 - 4, r.t0, r.t0 + 4, r.t0 + 8, LastTime(r), LastTime(r) + 4, LastTime(r) - 4}
               \cup (IF Off THEN {r.t0 + 1, r.t0 + 7, LastTime(r) - 1} ELSE {})
Ops == UNION {
  {[name |-> "trim", i |-> i, a |-> a, b |-> b] : a \in Bounds(s[i]), b \in Bounds(s[i])} : i \in Live}
  \cup {[name |-> "pad", i |-> i, target |-> t] : i \in Live, t \in Targets}
  \cup (IF Live = {1, 2} /\ s[1].kind # "array" THEN {[name |-> "stack", i |-> 1, j |-> 2], [name |-> "stack", i |-> 2, j |-> 1]} ELSE {})
  \cup {[name |-> "stack", i |-> i, j |-> i] : i \in {x \in Live : k = 0 /\ s[x].kind # "array"}}     \* a record onto itself
  \cup {[name |-> "bogus", i |-> i, j |-> i] : i \in {x \in Live : s[x].kind # "array"}}
  \cup {[name |-> "copy", i |-> i, j |-> 3 - i] : i \in Live}

\* Records keep at least two samples (a single sample has no time axis to speak of).
Fits(t) == \A i \in {1, 2} : t[i].kind = "none" \/ (NSamp(t[i]) >= 2 /\ NSamp(t[i]) <= MaxLen)
Next == /\ k < MaxSteps
        /\ \E o \in Ops :
             /\ o.name \in OpNames
             /\ (o.name = "trim" => (~Tie(s[o.i], o.a) /\ ~Tie(s[o.i], o.b)))
             /\ LET r == Do(s, o) IN
                  /\ Fits(r.st)
                  /\ s' = r.st
                  /\ op' = [name |-> o.name, i |-> o.i, j |-> IF "j" \in DOMAIN o THEN o.j ELSE 0,
                            a |-> IF "a" \in DOMAIN o THEN o.a ELSE 0, b |-> IF "b" \in DOMAIN o THEN o.b ELSE 0,
                            target |-> IF "target" \in DOMAIN o THEN o.target ELSE 0, out |-> r.out]
        /\ k' = k + 1
Spec == Init /\ [][Next]_<<s, k, op>>
View == <<s, k>>
Emit == PrintT(<<"E", ToJson([p |-> [k |-> k, s |-> s], o |-> op', q |-> [k |-> k', s |-> s']])>>)

TypeOK == \A i \in {1, 2} : s[i].kind = "none" \/ (NSamp(s[i]) >= 1 /\ s[i].n >= 1 /\ s[i].mult >= 1 /\ s[i].t0 = s[i].delay)
InvTrim == \A i \in Live : \A a \in Bounds(s[i]), b \in Bounds(s[i]) : TrimExact(s[i], a, b)
InvPad == \A i \in Live : \A t \in Targets : PadExact(s[i], t)
InvStack == Live = {1, 2} => StackExact(s[1], s[2])
InvFrame == \A o \in Ops : o.name \in OpNames => Frame(s, o)
=============================================================================
