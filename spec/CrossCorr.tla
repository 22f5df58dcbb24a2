------------------------------ MODULE CrossCorr ------------------------------
(* Aligning one record with another by cross-correlation, and stacking the   *)
(* aligned record.                                                            *)
EXTENDS Integers, Sequences, TLC
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

(* Correlation at lag d: b moved d samples later against a, for every lag at  *)
(* which the two overlap.                                                     *)
At(a, b, d) == SumTo([i \in 1..Len(a) |-> IF i - d >= 1 /\ i - d <= Len(b) THEN a[i] * b[i - d] ELSE 0], Len(a))
Lags(a, b) == (1 - Len(b))..(Len(a) - 1)
All(a, b) == TLCEval([d \in Lags(a, b) |-> At(a, b, d)])
Best(a, b) == LET c == All(a, b)  L == Lags(a, b)
                  m == CHOOSE d \in L : \A x \in L : c[x] <= c[d]
              IN CHOOSE d \in L : c[d] = c[m] /\ \A x \in L : x < d => c[x] < c[d]
(* Correlation of records of any lengths: with b moved by 1 - Len(b), ...,    *)
(* Len(a) - 1 samples; or as many as a has, in their middle; or only those    *)
(* with the whole of one record within the other.                             *)
From(a, b, mode) == CASE mode = "full" -> 1 - Len(b)
                      [] mode = "same" -> (1 - Len(b)) + ((Len(b) - 1) \div 2)
                      [] mode = "valid" -> IF Len(a) >= Len(b) THEN 0 ELSE Len(a) - Len(b)
Count(a, b, mode) == CASE mode = "full" -> (Len(a) + Len(b)) - 1
                       [] mode = "same" -> Len(a)
                       [] mode = "valid" -> (IF Len(a) >= Len(b) THEN Len(a) - Len(b) ELSE Len(b) - Len(a)) + 1
Corr(a, b, mode) == TLCEval([j \in 1..Count(a, b, mode) |-> At(a, b, From(a, b, mode) + j - 1)])
Moved(b, d) == TLCEval([i \in 1..Len(b) |-> IF i - d >= 1 /\ i - d <= Len(b) THEN b[i - d] ELSE 0])

\* Whether the lag is sought for records of different lengths too is up to the caller.
(* Records here: [w |-> samples, n |-> stack count, dt, delay].               *)
Shift(a, b) == LET d == Best(a.w, b.w) IN [lag |-> d, w |-> Moved(b.w, d)]
Comparable(a, b) == a.dt = b.dt /\ a.delay = b.delay /\ a.n = b.n
Alignable(a, b) == a.dt = b.dt /\ a.delay = b.delay /\ Len(a.w) = Len(b.w)
\* Sum (not mean) of the stacked record, so that it stays an integer.
Stacked(a, b) == LET m == Shift(a, b).w
                 IN [sum |-> TLCEval([i \in 1..Len(a.w) |-> a.w[i] * a.n + m[i] * b.n]), n |-> a.n + b.n]
-----------------------------------------------------------------------------
\* What the definitions must guarantee (checked on the model).
NoBetterLag(a, b) == \A d \in Lags(a, b) : /\ At(a, b, d) <= At(a, b, Best(a, b))
                                           /\ Len(Moved(b, d)) = Len(b)
                                           /\ (Len(a) <= Len(b)) => (At(a, Moved(b, d), 0) = At(a, b, d))
CorrOfLags(a, b) == Corr(a, b, "full") = [j \in 1..((Len(a) + Len(b)) - 1) |-> At(a, b, j - Len(b))]
CorrMirrors(a, b) == LET x == Corr(a, b, "full")  y == Corr(b, a, "full") IN \A j \in 1..Len(x) : x[j] = y[Len(x) + 1 - j]
SelfAligned(a) == Best(a, a) <= 0 /\ At(a, a, 0) = At(a, a, Best(a, a))
=============================================================================
