------------------------------- MODULE Reduce -------------------------------
(* Reducing multi-valued peaks, resampling suites, and suite statistics.     *)
EXTENDS Peaks
\* rows = 0: the valid peaks are already one per sample
Cell(m, r, c) == (r - 1) * m.cols + c
Has(m, a) == \E i \in 1..Len(m.attrs) : m.attrs[i] = a
Decides(m) == IF Has(m, "power") THEN "power" ELSE "frequency"
Candidates(m, c) == {r \in 1..m.rows : m.valid[Cell(m, r, c)] = 1 /\ ~Lacks(m, Decides(m), Cell(m, r, c))}
\* the strongest, the first of equals
Best(m, c) == CHOOSE r \in Candidates(m, c) : \A t \in Candidates(m, c) :
                LET x == m.data[Decides(m)][Cell(m, r, c)]  y == m.data[Decides(m)][Cell(m, t, c)]
                IN x > y \/ (x = y /\ r <= t)
RECURSIVE Chosen(_, _)
Chosen(m, c) == IF c > m.cols THEN << >>
                ELSE (IF Candidates(m, c) = {} THEN << >> ELSE <<Cell(m, Best(m, c), c)>>) \o Chosen(m, c + 1)
Reduced(m) == IF m.rows = 0 THEN Order(m, 1) ELSE Chosen(m, 1)
\* values as integers: frequency and velocity in quarters, wavelength as is, slowness in millionths
Exact(r, K) == IF (r[1] * K) % r[2] = 0 THEN (r[1] * K) \div r[2] ELSE Nan
UnitOf(a) == CASE a = "slowness" -> 1000000 [] a = "wavelength" -> 1 [] OTHER -> 4
Val(m, a, i) == Exact(Rat(m, a, i), UnitOf(a))
Points(m, xt, yt) == LET o == Reduced(m) IN [j \in 1..Len(o) |-> <<Val(m, xt, o[j]), Val(m, yt, o[j])>>]
\* resampling needs both values of every reduced point
Undefined(m, xt, yt) == \E j \in 1..Len(Reduced(m)) : Lacks(m, xt, Reduced(m)[j]) \/ Lacks(m, yt, Reduced(m)[j])
\* piecewise linear through points p (distinct abscissae): value at X as <<numerator, denominator>>
Below(p, X) == {j \in 1..Len(p) : p[j][1] <= X}
Above(p, X) == {j \in 1..Len(p) : p[j][1] >= X}
Greatest(p, s) == CHOOSE j \in s : \A n \in s : p[n][1] <= p[j][1]
Least(p, s) == CHOOSE j \in s : \A n \in s : p[n][1] >= p[j][1]
At(p, X) == IF Below(p, X) = {} \/ Above(p, X) = {} THEN None
            ELSE LET a == p[Greatest(p, Below(p, X))]  b == p[Least(p, Above(p, X))]
                 IN IF a[1] = b[1] THEN <<a[2], 1>>
                    ELSE <<a[2] * (b[1] - X) + b[2] * (X - a[1]), b[1] - a[1]>>
\* at a location by a hair (e = 1 above, -1 below) beside X
Beside(p, X, e) == LET r == At(p, X) IN
  IF e # 0 /\ r # None /\ ((e > 0 /\ \A j \in 1..Len(p) : p[j][1] <= X) \/ (e < 0 /\ \A j \in 1..Len(p) : p[j][1] >= X)) THEN None ELSE r
\* x is K times the rational r, or is missing when r is
Agrees(x, r, K) == IF r = None THEN x = Nan ELSE x # Nan /\ Abs(x * r[2] - K * r[1]) <= r[2]

\* Statistics of members given by their points; values at the requested locations are whole numbers
Whole(p, X) == LET r == At(p, X) IN IF r = None THEN Nan ELSE r[1] \div r[2]
Column(ms, X) == [r \in 1..Len(ms) |-> Whole(ms[r], X)]
Count(col) == Cardinality({r \in 1..Len(col) : col[r] # Nan})
RECURSIVE SumC(_, _)
SumC(col, n) == IF n = 0 THEN 0 ELSE SumC(col, n - 1) + (IF col[n] = Nan THEN 0 ELSE col[n])
RECURSIVE Kept(_, _, _, _)
Kept(ms, xx, need, n) == IF n > Len(xx) THEN << >>
                         ELSE (IF Count(Column(ms, xx[n])) >= need /\ Count(Column(ms, xx[n])) > 0 THEN <<xx[n]>> ELSE << >>)
                              \o Kept(ms, xx, need, n + 1)
\* deviations from the column's mean, times the count
Dev(col) == [r \in 1..Len(col) |-> IF col[r] = Nan THEN 0 ELSE Count(col) * col[r] - SumC(col, Len(col))]
RECURSIVE Dot(_, _, _)
Dot(a, b, n) == IF n = 0 THEN 0 ELSE Dot(a, b, n - 1) + a[n] * b[n]
Complete(col) == Count(col) = Len(col)
\* s = std times K:  s^2 n^2 (n-1) = K^2 sum of squared Dev, up to rounding (n = 1: not a number)
StdOK(col, s, K) == LET n == Count(col)  A == Dot(Dev(col), Dev(col), Len(col)) IN
  IF n < 2 THEN s = Nan
  ELSE s # Nan /\ s >= 0 /\ (s = 0 \/ (s - 1) * (s - 1) * n * n * (n - 1) <= K * K * A)
                         /\ K * K * A <= (s + 1) * (s + 1) * n * n * (n - 1)
MeanOK(col, m, K) == m # Nan /\ Abs(m * Count(col) - K * SumC(col, Len(col))) <= Count(col)
CorrOK(a, b, filled, x, K) ==
  LET da == Dev(a)  db == Dev(b)  L == Len(a)
      A == Dot(da, da, L)  B == Dot(db, db, L)  C == Dot(da, db, L)
  IN IF A = 0 \/ B = 0 THEN TRUE      \* undefined
     ELSE IF ~filled /\ ~(Complete(a) /\ Complete(b)) THEN x = Nan
     ELSE /\ x # Nan /\ (C > 0 => x >= 0) /\ (C < 0 => x <= 0)
          /\ LET y == Abs(x) IN /\ y = 0 \/ (y - 1) * (y - 1) * A * B <= K * K * C * C
                                /\ K * K * C * C <= (y + 1) * (y + 1) * A * B
=============================================================================
