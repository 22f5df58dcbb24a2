----------------------------- MODULE MC_Peaks -----------------------------
(* Every order of rejections on a suite of two sets.                         *)
EXTENDS Peaks, TLC, Json
CONSTANTS MaxSteps
VARIABLES s, k, op
A1 == [id |-> "a", attrs |-> <<"frequency", "velocity", "azimuth">>, rows |-> 0, cols |-> 3,
       data |-> [frequency |-> <<8, 16, 32>>, velocity |-> <<800, 640, 512>>, azimuth |-> <<40, -40, Nan>>], valid |-> <<1, 1, 1>>]
A2 == [id |-> "b", attrs |-> <<"frequency", "velocity", "power">>, rows |-> 2, cols |-> 2,
       data |-> [frequency |-> <<8, 20, 8, 20>>, velocity |-> <<640, 400, 800, Nan>>, power |-> <<4, 8, 12, 8>>], valid |-> <<1, 1, 1, 0>>]
Lims == [frequency  |-> {<<None, <<16, 4>>>>, <<<<8, 4>>, None>>, <<<<9, 4>>, <<24, 4>>>>, <<<<50, 4>>, <<7, 4>>>>},
         velocity   |-> {<<None, <<640, 4>>>>, <<<<640, 4>>, None>>, <<<<500, 4>>, <<700, 4>>>>},
         slowness   |-> {<<None, <<4, 640>>>>, <<<<4, 640>>, None>>, <<<<1, 190>>, <<1, 120>>>>},
         wavelength |-> {<<None, <<40, 1>>>>, <<<<20, 1>>, None>>, <<<<30, 1>>, <<90, 1>>>>},
         wavenumber |-> {<<<<1, 43>>, None>>, <<None, <<1, 37>>>>},
         azimuth    |-> {<<<<0, 4>>, None>>, <<None, <<0, 4>>>>, <<<<-40, 4>>, <<40, 4>>>>, <<None, None>>}]
Box(xt, xl, yt, yl) == [name |-> "box", m |-> 0, xt |-> xt, xl |-> xl, yt |-> yt, yl |-> yl]
Boxes == {Box("frequency", <<<<33, 4>>, <<7, 4>>>>, "velocity", <<<<600, 4>>, <<700, 4>>>>),
          Box("frequency", <<<<8, 4>>, <<32, 4>>>>, "slowness", <<<<4, 641>>, <<4, 399>>>>),
          Box("wavelength", <<<<100, 1>>, <<20, 1>>>>, "velocity", <<<<799, 4>>, <<300, 4>>>>),
          Box("wavelength", <<<<0, 1>>, <<2000, 1>>>>, "frequency", <<<<0, 1>>, <<2000, 1>>>>),
          Box("velocity", <<<<640, 4>>, <<0, 1>>>>, "wavenumber", <<<<1, 43>>, <<1, 3>>>>)}
Ops == {[name |-> "out", m |-> j, attr |-> a, lims |-> b] : a \in DOMAIN Lims, b \in UNION {Lims[x] : x \in DOMAIN Lims}, j \in 0..1}
\* a limit of zero is a limit; only member 1 has an azimuth
Good(o) == o.lims \in Lims[o.attr] /\ (o.attr = "azimuth" => o.m = 1)
All == {o \in Ops : Good(o)} \cup {[b EXCEPT !.m = j] : b \in Boxes, j \in {0, 2}}
Init == s = <<A1, A2>> /\ k = 0 /\ op = [name |-> "init"]
Next == /\ k < MaxSteps /\ k' = k + 1
        /\ \E o \in All : s' = Apply(s, o) /\ op' = o
Spec == Init /\ [][Next]_<<s, k, op>>
View == <<s, k>>
V(t) == [j \in 1..Len(t) |-> t[j].valid]
St(t) == [s |-> t]
Emit == PrintT(<<"E", ToJson([p |-> [k |-> k, s |-> s], o |-> op', q |-> [k |-> k', s |-> s']])>>)
PropPermanent == [][Permanent(s, s')]_<<s, k, op>>
PropIdempotent == [][Apply(s', op') = s']_<<s, k, op>>
InvCommute == \A o1 \in All : \A o2 \in All : Apply(Apply(s, o1), o2) = Apply(Apply(s, o2), o1)
=============================================================================
