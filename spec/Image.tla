------------------------------- MODULE Image -------------------------------
(* Dispersion images: normalisation, picking, stacking.                      *)
(* An image is [m, n, mode]: m[v][f] the magnitudes of its power (integers), *)
(* n the number of records it stands for, mode the last normalisation        *)
(* applied ("raw" before the first).  What is shown is a ratio num/den.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MaxIn(X) == CHOOSE x \in X : \A y \in X : y <= x
All(m) == MaxIn({m[v][f] : v \in DOMAIN m, f \in DOMAIN m[1]})
Col(m, f) == MaxIn({m[v][f] : v \in DOMAIN m})
\* where there is no power there is nothing to scale
Scale(x) == IF x = 0 THEN 1 ELSE x
\* what the picture shows at <<v, f>>, as <<numerator, denominator>>
Shown(i, v, f) == CASE i.mode \in {"raw", "none"} -> <<i.m[v][f], 1>>
                    [] i.mode = "absolute-maximum" -> <<i.m[v][f], Scale(All(i.m))>>
                    [] i.mode = "frequency-maximum" -> <<i.m[v][f], Scale(Col(i.m, f))>>
Normalize(i, by) == [i EXCEPT !.mode = by]
\* index of the picked velocity at each frequency
Picks(i) == [f \in DOMAIN i.m[1] |-> CHOOSE v \in DOMAIN i.m : /\ i.m[v][f] = Col(i.m, f)
                                                              /\ \A u \in 1..(v - 1) : i.m[u][f] < i.m[v][f]]

(* An accumulator [s, n, fr, ve]: s[v][f] is its (real) power times n at     *)
(* frequency fr[f] and velocity ve[v].                                       *)
SameAxes(a, x) == a.fr = x.fr /\ a.ve = x.ve
StackOut(acc, x) == IF SameAxes(acc, x) THEN "ok" ELSE "ValueError"
Stack(acc, x) ==
  IF ~SameAxes(acc, x) THEN acc
  ELSE [acc EXCEPT !.s = TLCEval([v \in DOMAIN acc.s |-> TLCEval([f \in DOMAIN acc.s[v] |-> acc.s[v][f] + x.s[v][f]])]), !.n = acc.n + x.n]

\* P17
NormExact(i, modes) ==
  \A by \in modes :
    LET j == Normalize(i, by)
    IN /\ \A b2 \in modes : Normalize(Normalize(i, b2), by) = j
       /\ Picks(j) = Picks(i)
       /\ by = "absolute-maximum" => All(i.m) = 0 \/ \E v \in DOMAIN i.m, f \in DOMAIN i.m[1] : Shown(j, v, f)[1] = Shown(j, v, f)[2]
       /\ by = "frequency-maximum" => \A f \in DOMAIN i.m[1] : Col(i.m, f) = 0 \/ Shown(j, Picks(j)[f], f)[1] = Shown(j, Picks(j)[f], f)[2]
       /\ \A v \in DOMAIN i.m, f \in DOMAIN i.m[1] : by # "none" => Shown(j, v, f)[1] <= Shown(j, v, f)[2]
\* P18
StackFree(a, b, c) == Stack(Stack(a, b), c) = Stack(Stack(a, c), b)
=============================================================================
