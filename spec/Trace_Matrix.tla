---------------------------- MODULE Trace_Matrix ----------------------------
EXTENDS Matrix, TraceLib
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumCol(_, _)
SumCol(col, n) == IF n = 0 THEN 0 ELSE SumCol(col, n - 1) + (IF Has(col[n]) THEN col[n] ELSE 0)
Mean1(col) == <<SumCol(col, Len(col)), Num(col)>>
RECURSIVE SumSq(_, _)
SumSq(col, n) == IF n = 0 THEN 0 ELSE SumSq(col, n - 1) + (IF Has(col[n]) THEN (Num(col) * col[n] - SumCol(col, Len(col))) * (Num(col) * col[n] - SumCol(col, Len(col))) ELSE 0)
\* means are in units of 1/K, standard deviations too
MeanOK(col, v, K) == IF Num(col) = 0 THEN v = Nan ELSE v # Nan /\ Abs(v * Num(col) - K * SumCol(col, Len(col))) <= Num(col)
StdOK(col, v, K) == LET n == Num(col) IN
  IF n < 2 THEN v = Nan
  ELSE LET A == SumSq(col, Len(col)) IN v # Nan /\ v >= 0 /\ (v = 0 \/ (v - 1) * (v - 1) * n * n * (n - 1) <= K * K * A) /\ K * K * A <= (v + 1) * (v + 1) * n * n * (n - 1)
MissingCells(m) == {<<r, c>> \in (1..Rows(m)) \X (1..Cols(m)) : ~Has(m[r][c])}
TheVerdict(i) ==
  LET e == Trace[i]  o == e.op  m == e.m
  IN (IF o.out = "ok" THEN {} ELSE {"fails"})
     \cup (IF o.out # "ok" THEN {}
     ELSE CASE o.name = "sort" -> (IF SameRows(m, e.got) THEN {} ELSE {"rows only move"})
                            \cup (IF [r \in 1..Len(e.got) |-> Starts(e.got[r])] = StartsSorted(m) THEN {} ELSE {"earliest first"})
       [] o.name = "regions" -> (IF e.got = Regions(m, e.th) THEN {} ELSE {"regions"})
                            \cup (IF GoodRegions(m, e.got, e.th) THEN {} ELSE {"regions within, ordered, disjoint and dense"})
       [] o.name = "drop" -> LET d == Drop(e.xx, m, e.po, e.ps, e.cs)
                            IN (IF e.xxgot = d.xx THEN {} ELSE {"locations left"}) \cup (IF e.got = d.m THEN {} ELSE {"values left"})
                               \cup (IF e.kept THEN {} ELSE {"input unchanged"})
       [] o.name = "density" -> (IF e.got[1] * (e.c[3] - e.c[1] + 1) * (e.c[4] - e.c[2] + 1) = e.got[2] * Cardinality(Block(m, e.c[1], e.c[2], e.c[3], e.c[4])) THEN {} ELSE {"density"})
       [] o.name = "stat" -> (IF Len(e.mean) = Cols(m) /\ \A c \in 1..Cols(m) : MeanOK(Column(m, c), e.mean[c], e.K) THEN {} ELSE {"mean"})
                            \cup (IF Len(e.std) = Cols(m) /\ \A c \in 1..Cols(m) : StdOK(Column(m, c), e.std[c], e.K) THEN {} ELSE {"standard deviation"})
                            \cup (IF e.kept THEN {} ELSE {"input unchanged"})
       [] o.name = "hold" -> (IF e.got = e.want THEN {} ELSE {"statistics hold what they are given"})
       [] OTHER ->  \* fill: draws[j] = <<mean, std>> asked for at the j-th draw; a filled entry is -j
            LET gaps == MissingCells(m)
                Draw(x) == e.draws[-x]
            IN (IF \A r \in 1..Rows(m) : \A c \in 1..Cols(m) : Has(m[r][c]) => e.got[r][c] = m[r][c] THEN {} ELSE {"present entries kept"})
               \cup (IF \A g \in gaps : e.got[g[1]][g[2]] < 0 /\ -(e.got[g[1]][g[2]]) \in 1..Len(e.draws) THEN
                        (IF \A g \in gaps : LET d == Draw(e.got[g[1]][g[2]])  col == Column(m, g[2])
                                           IN IF e.given THEN d = <<100 + g[2], 50 + g[2]>> ELSE MeanOK(col, d[1], e.K) /\ StdOK(col, d[2], e.K)
                         THEN {} ELSE {"drawn with the column's statistics"})
                        \cup (IF Cardinality({e.got[g[1]][g[2]] : g \in gaps}) = Cardinality(gaps) /\ Len(e.draws) = Cardinality(gaps) THEN {} ELSE {"one draw per missing entry"})
                     ELSE {"missing entries filled"}))
=============================================================================
