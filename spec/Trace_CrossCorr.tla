--------------------------- MODULE Trace_CrossCorr ---------------------------
EXTENDS CrossCorr, TraceLib
TheVerdict(i) ==
  LET e == Trace[i] IN
  IF e.op.name = "corr"
  THEN (IF e.out = (IF Comparable(e.a, e.b) THEN "ok" ELSE "ValueError") THEN {} ELSE {"outcome"})
       \cup (IF e.out # "ok" \/ e.w = Corr(e.a.w, e.b.w, e.op.mode) THEN {} ELSE {"correlation"})
       \cup (IF e.a2 = e.a /\ e.b2 = e.b THEN {} ELSE {"inputs-changed"})
  ELSE IF ~Alignable(e.a, e.b) /\ ~(e.op.name = "shift" /\ e.op.anylen /\ e.a.dt = e.b.dt /\ e.a.delay = e.b.delay)
  THEN (IF e.out = "ValueError" THEN {} ELSE {"incompatible-not-rejected"})
       \cup (IF e.a2 = e.a /\ e.b2 = e.b THEN {} ELSE {"inputs-changed"})
  ELSE LET s == Shift(e.a, e.b)
           t == Stacked(e.a, e.b)
       IN (IF e.out = "ok" THEN {} ELSE {"refused"})
          \cup (IF e.op.name = "shift"
                THEN (IF e.lag = s.lag THEN {} ELSE {"lag"}) \cup (IF e.w = s.w THEN {} ELSE {"shifted-samples"})
                ELSE (IF e.w = t.sum THEN {} ELSE {"stacked-samples"}) \cup (IF e.n = t.n THEN {} ELSE {"stack-count"})
                     \cup (IF e.rdt = e.a.dt /\ e.rdelay = e.a.delay THEN {} ELSE {"time-axis"}))
          \cup (IF e.a2 = e.a /\ e.b2 = e.b THEN {} ELSE {"inputs-changed"})
=============================================================================
