---------------------------- MODULE Trace_Limits ----------------------------
EXTENDS Limits, TraceLib
TheVerdict(i) ==
  LET e == Trace[i]  o == e.op
      d == Do(o.xt, o.at, o.yt, o.lims, e.xs, e.ys)
  IN IF o.name = "limits" THEN
       (IF o.out = d.out THEN {} ELSE {"unsupported axes are refused, supported ones are not"})
       \cup (IF d.out # "ok" \/ o.out # "ok" \/ (Len(e.curves) = 2 /\ Same(e.curves[1], d.curves[1])) THEN {} ELSE {"lower limit"})
       \cup (IF d.out # "ok" \/ o.out # "ok" \/ (Len(e.curves) = 2 /\ Same(e.curves[2], d.curves[2])) THEN {} ELSE {"upper limit"})
     ELSE \* drawn on axes: nothing is drawn, with a warning, when unsupported
       (IF o.out = "ok" THEN {} ELSE {"drawing fails"})
       \cup (IF d.out = "ok" \/ e.warned THEN {} ELSE {"warning"})
       \cup (IF Len(e.curves) = Len(d.curves) THEN {} ELSE {"number of lines"})
       \cup (IF Len(e.curves) = 2 /\ Len(d.curves) = 2 /\
                ~\A c \in 1..2 : LET w == d.curves[c]  g == e.curves[c]
                                IN IF o.ends THEN Same(<<g[1], g[Len(g)]>>, <<w[1], w[Len(w)]>>) ELSE Same(g, w)
             THEN {"drawn limits"} ELSE {})
     \cup (IF e.kept THEN {} ELSE {"inputs unchanged"})
=============================================================================
