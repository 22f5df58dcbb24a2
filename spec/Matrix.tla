------------------------------- MODULE Matrix -------------------------------
(* A data matrix: a sequence of rows (observations), one entry per sampling  *)
(* location; Nan marks a missing entry.  Fractions are <<n, d>>.             *)
EXTENDS Integers, Sequences, FiniteSets
Nan == -999999999
Rows(m) == Len(m)
Cols(m) == IF m = << >> THEN 0 ELSE Len(m[1])
Has(x) == x # Nan
Here(row) == {c \in 1..Len(row) : Has(row[c])}
Column(m, c) == [r \in 1..Len(m) |-> m[r][c]]
Num(row) == Cardinality(Here(row))
RECURSIVE SumNum(_, _)
SumNum(m, n) == IF n = 0 THEN 0 ELSE SumNum(m, n - 1) + Num(m[n])
AllNum(m) == SumNum(m, Len(m))
\* --- sorting: rows only move, those starting earliest come first
Starts(row) == IF Here(row) = {} THEN Len(row) + 1 ELSE CHOOSE c \in Here(row) : \A d \in Here(row) : c <= d
RECURSIVE Insert(_, _)
Insert(s, x) == IF s = << >> THEN <<x>> ELSE IF x < Head(s) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(Tail(s), x)
RECURSIVE Sorted(_)
Sorted(s) == IF s = << >> THEN << >> ELSE Insert(Sorted(Tail(s)), Head(s))
StartsSorted(m) == Sorted([r \in 1..Len(m) |-> Starts(m[r])])
Times(m, row) == Cardinality({r \in 1..Len(m) : m[r] = row})
SameRows(a, b) == Len(a) = Len(b) /\ \A r \in 1..Len(a) : Times(a, a[r]) = Times(b, a[r])
\* --- dropping
Few(row, pct, cnt) == LET n == Num(row) IN n < cnt \/ (IF Len(row) = 0 THEN pct[1] > 0 ELSE n * pct[2] < pct[1] * Len(row))
RECURSIVE KeepIdx(_, _, _, _)
KeepIdx(m, pct, cnt, r) == IF r > Len(m) THEN << >> ELSE (IF Few(m[r], pct, cnt) THEN << >> ELSE <<r>>) \o KeepIdx(m, pct, cnt, r + 1)
Pick(s, idx) == [j \in 1..Len(idx) |-> s[idx[j]]]
DropRows(m, op) == Pick(m, KeepIdx(m, op, 0, 1))
\* columns of a matrix of w columns (it may have no rows)
ColIdx(m, w, ps, cs) == KeepIdx([c \in 1..w |-> Column(m, c)], ps, cs, 1)
PickCols(m, idx) == [r \in 1..Len(m) |-> Pick(m[r], idx)]
Missing(m) == LET w == Cols(m) IN Len(m) * w - AllNum(m)
Drop(xx, m, po, ps, cs) ==
  LET c1 == ColIdx(m, Len(xx), ps, cs)
      m1 == DropRows(PickCols(m, c1), po)
      m2r == DropRows(m, po)
      c2 == ColIdx(m2r, Len(xx), ps, cs)
      m2 == PickCols(m2r, c2)
      n0 == Missing(m)  v0 == AllNum(m)
      \* missing entries got rid of for every value lost
      a1 == n0 - Missing(m1)  b1 == v0 - AllNum(m1) + 1
      a2 == n0 - Missing(m2)  b2 == v0 - AllNum(m2) + 1
  IN IF a1 * b2 > a2 * b1 THEN [xx |-> Pick(xx, c1), m |-> m1] ELSE [xx |-> Pick(xx, c2), m |-> m2]
\* --- density of the block between two corners, both included
Block(m, r1, c1, r2, c2) == {<<r, c>> \in (r1..r2) \X (c1..c2) : Has(m[r][c])}
Dense(m, r1, c1, r2, c2, th) == Cardinality(Block(m, r1, c1, r2, c2)) * th[2] >= th[1] * (r2 - r1 + 1) * (c2 - c1 + 1)
\* --- regions: from its first entry a region grows by the next row, then the
\* next column, as long as it stays dense enough
RECURSIVE Grow(_, _, _, _, _, _)
Grow(m, r1, c1, r2, c2, th) ==
  LET rowOK == r2 < Rows(m) /\ Dense(m, r1, c1, r2 + 1, c2, th)
      r3 == IF rowOK THEN r2 + 1 ELSE r2
      colOK == c2 < Cols(m) /\ Dense(m, r1, c1, r3, c2 + 1, th)
      c3 == IF colOK THEN c2 + 1 ELSE c2
  IN IF ~rowOK /\ ~colOK THEN <<r2, c2>> ELSE Grow(m, r1, c1, r3, c3, th)
FirstRow(m, c) == CHOOSE r \in 1..Rows(m) : Has(m[r][c]) /\ \A t \in 1..(r - 1) : ~Has(m[t][c])
RECURSIVE From(_, _, _)
From(m, c, th) == IF c > Cols(m) THEN << >>
                  ELSE LET r == FirstRow(m, c)  e == Grow(m, r, c, r, c, th)
                       IN <<<<r, c, e[1], e[2]>>>> \o From(m, e[2] + 1, th)
Regions(m, th) == From(m, 1, th)
\* every column has a value and the first entry is one
Regionable(m) == Rows(m) > 0 /\ Cols(m) > 0 /\ Has(m[1][1]) /\ \A c \in 1..Cols(m) : \E r \in 1..Rows(m) : Has(m[r][c])
\* P33 as a theorem
GoodRegions(m, g, th) == /\ \A j \in 1..Len(g) : 1 <= g[j][1] /\ g[j][1] <= g[j][3] /\ g[j][3] <= Rows(m) /\ 1 <= g[j][2] /\ g[j][2] <= g[j][4] /\ g[j][4] <= Cols(m)
                         /\ \A j \in 1..(Len(g) - 1) : g[j + 1][2] = g[j][4] + 1
                         /\ Len(g) > 0 /\ g[1][2] = 1 /\ g[Len(g)][4] = Cols(m)
                         /\ \A j \in 1..Len(g) : Dense(m, g[j][1], g[j][2], g[j][3], g[j][4], th) \/ (g[j][1] = g[j][3] /\ g[j][2] = g[j][4])
=============================================================================
