---------------------------- MODULE Trace_Reduce ----------------------------
EXTENDS Reduce, TraceLib
K == 10
M == INSTANCE Matrix
ReduceBad(e) == LET o == Reduced(e.m) IN
  {a \in DOMAIN e.vals : \/ Len(e.vals[a]) # Len(o)
                         \/ Len(e.vals[a]) = Len(o) /\ \E j \in 1..Len(o) :
                              IF Lacks(e.m, a, o[j]) THEN e.vals[a][j] # Nan
                              ELSE IF a \in Derived THEN ~Near(e.vals[a][j], Rat(e.m, a, o[j]), CASE a = "slowness" -> 1000000 [] a = "wavelength" -> 1000 [] OTHER -> 100000)
                              ELSE e.vals[a][j] # e.m.data[a][o[j]]}
ArrayBad(e) == (IF e.xx = e.gotxx THEN {} ELSE {"locations"})
  \cup (IF Len(e.rows) = Len(e.ms) THEN {} ELSE {"one row per member"})
  \cup (IF Len(e.rows) = Len(e.ms) /\ \E r \in 1..Len(e.ms) :
          LET raw == Points(e.ms[r], e.xt, e.yt)  p == TLCEval([j \in 1..Len(raw) |-> <<raw[j][1] * e.fine, raw[j][2]>>]) IN
          \/ Len(e.rows[r]) # Len(e.xx)
          \/ \E n \in 1..Len(e.xx) : ~Agrees(e.rows[r][n], Beside(p, e.xx[n], e.eps[n]), K)
        THEN {"values"} ELSE {})
StatsBad(e) ==
  IF Len(e.ms) < 3 THEN IF e.op.out = "ValueError" THEN {} ELSE {"fewer than three members"}
  ELSE LET full == TLCEval([r \in 1..Len(e.ms) |-> TLCEval([j \in 1..Len(e.xx) |-> Whole(e.ms[r], e.xx[j])])])
           d == M!Drop(e.xx, full, <<1, 100>>, <<1, 100>>, e.need)
           kp == d.xx
           n == Len(kp)
           c2 == TLCEval([j \in 1..n |-> TLCEval([r \in 1..Len(d.m) |-> d.m[r][j]])])
           \* up to a hundred members and locations it is the number of values that counts
           usual == Len(e.xx) > 100 \/ Len(e.ms) > 100 \/ kp = Kept(e.ms, e.xx, e.need, 1)
           SK == IF Len(e.ms) > 20 THEN 5 ELSE 100
       IN (IF e.op.out = "ok" THEN {} ELSE {"outcome"})
          \cup (IF usual THEN {} ELSE {"specification"})
          \cup (IF e.op.out # "ok" THEN {} ELSE
                (IF e.gotxx = kp THEN {} ELSE {"locations"})
                \cup (IF e.gotxx # kp THEN {} ELSE
                      (IF Len(e.mean) = n /\ \A j \in 1..n : MeanOK(c2[j], e.mean[j], 100) THEN {} ELSE {"mean"})
                      \cup (IF Len(e.std) = n /\ \A j \in 1..n : StdOK(c2[j], e.std[j], SK) THEN {} ELSE {"standard deviation"})
                      \cup (IF e.ignore THEN (IF e.corr = << >> THEN {} ELSE {"correlation not asked for"})
                            ELSE IF Len(e.corr) = n /\ \A a \in 1..n : Len(e.corr[a]) = n /\
                                    \A b \in 1..n : CorrOK(c2[a], c2[b], e.filled, e.corr[a][b], 20) THEN {} ELSE {"correlation"})))
TheVerdict(i) ==
  LET e == Trace[i] IN
  (IF e.kept THEN {} ELSE {"members unchanged"})
  \cup (CASE e.op.name = "reduce" -> ReduceBad(e)
          [] e.op.name = "array"  ->
            IF \E r \in 1..Len(e.ms) : Undefined(e.ms[r], e.xt, e.yt)
            THEN (IF e.op.out = "ValueError" THEN {} ELSE {"missing values refused"})
            ELSE (IF e.op.out = "ok" THEN {} ELSE {"outcome"}) \cup ArrayBad(e)
          [] e.op.name = "stats"  -> StatsBad(e))
=============================================================================
