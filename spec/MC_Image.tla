------------------------------ MODULE MC_Image ------------------------------
EXTENDS Image, TLC, Json
CONSTANTS Mode, Vals, MaxSteps
VARIABLES w, k, op

Modes == {"none", "absolute-maximum", "frequency-maximum"}
\* images of 2 velocities and 2 frequencies, each frequency with a positive value
Imgs == [1..2 -> [1..2 -> Vals]]
AccVals == {-2, 0, 3}
Flat(x, y) == <<<<x, y>>, <<y + 1, x - 2>>>>
\* the second accumulator may lie on other frequencies
Axes == {<<1, 2>>, <<1, 3>>}
Zero(fr) == [s |-> <<<<0, 0>>, <<0, 0>>>>, n |-> 0, fr |-> fr, ve |-> <<100, 200>>]
Init == /\ k = 0 /\ op = [name |-> "init"]
        /\ \/ Mode = "norm" /\ \E m \in Imgs : w = [m |-> m, n |-> 1, mode |-> "raw"]
           \/ Mode = "stack" /\ \E fr \in Axes : w = [acc |-> Zero(<<1, 2>>), acc2 |-> Zero(fr)]
NormStep == /\ Mode = "norm"
            /\ \/ \E by \in Modes : w' = Normalize(w, by) /\ op' = [name |-> "normalize", by |-> by]
               \/ w' = w /\ op' = [name |-> "pick", picks |-> Picks(w)]
               \/ w' = w /\ op' = [name |-> "unknown", out |-> "KeyError"]
               \/ \E by \in Modes : w' = Normalize(w, by) /\ op' = [name |-> "plot", by |-> by, picks |-> Picks(w)]
StackStep == /\ Mode = "stack"
             /\ \/ \E x \in AccVals, y \in {0, 5}, n \in {1, 2}, i \in {"acc", "acc2"} :
                     LET img == [s |-> [v \in 1..2 |-> [f \in 1..2 |-> n * Flat(x, y)[v][f]]], n |-> n, fr |-> <<1, 2>>, ve |-> <<100, 200>>]
                     IN w' = [w EXCEPT ![i] = Stack(@, img)] /\ op' = [name |-> "image", i |-> i, p |-> Flat(x, y), n |-> n, out |-> StackOut(w[i], img)]
                \/ \E i \in {"acc", "acc2"}, fr \in {<<1, 2>>, <<2, 1>>, <<1>>, <<1, 3>>}, ve \in {<<100, 200>>, <<100>>, <<100, 250>>} :
                     LET img == [s |-> [v \in DOMAIN ve |-> [f \in DOMAIN fr |-> 4]], n |-> 1, fr |-> fr, ve |-> ve]
                     IN ~SameAxes(w[i], img) /\ w' = [w EXCEPT ![i] = Stack(@, img)]
                        /\ op' = [name |-> "elsewhere", i |-> i, fr |-> fr, ve |-> ve, out |-> StackOut(w[i], img)]
                \/ w.acc2.n + w.acc.n > 0 /\ w' = [w EXCEPT !.acc = Stack(@, w.acc2)] /\ op' = [name |-> "acc", out |-> StackOut(w.acc, w.acc2)]
                \/ \E i \in {"acc", "acc2"} : w' = w /\ op' = [name |-> "bogus", i |-> i, out |-> "AttributeError"]
Next == k < MaxSteps /\ k' = k + 1 /\ (NormStep \/ StackStep)
Spec == Init /\ [][Next]_<<w, k, op>>
View == <<w, k>>
Emit == PrintT(<<"E", ToJson([p |-> [k |-> k, w |-> w], o |-> op', q |-> [k |-> k', w |-> w']])>>)
InvNorm == Mode = "norm" => NormExact(w, Modes)
InvStack == Mode = "stack" => /\ \A fr \in Axes : StackFree(Zero(fr), w.acc, w.acc2)
                               /\ w.acc.n + w.acc2.n > 0 /\ ~SameAxes(w.acc, w.acc2) => Stack(w.acc, w.acc2) = w.acc
=============================================================================
