----------------------------- MODULE Trace_Pick -----------------------------
EXTENDS Pick, TraceLib
Line(acc, ax) == [j \in 1..2 |-> <<Dist(acc, ax)[j], Time(acc, ax)[j]>>]
TheVerdict(i) ==
  LET e == Trace[i]  c == e.cfg
      s == Play(c, Start(c), e.steps)
  IN IF e.op.name = "session" THEN
       (IF e.op.out = "ok" /\ s.ph = "done" THEN {} ELSE {"ends exactly when done"})
       \cup (IF e.op.out = "ok" /\ e.xs = Xs(s.acc) /\ e.ys = Ys(s.acc) THEN {} ELSE {"accepted points"})
     ELSE IF e.op.name = "arrivals" THEN
       (IF e.op.out = "ok" /\ s.ph = "done" THEN {} ELSE {"ends exactly when done"})
       \cup (IF e.op.out = "ok" /\ e.xs = Dist(s.acc, e.timeax) THEN {} ELSE {"distances"})
       \cup (IF e.op.out = "ok" /\ e.ys = Time(s.acc, e.timeax) THEN {} ELSE {"times"})
     ELSE \* mute lines: one session of two points for each line
       LET n == e.first                                  \* steps of the first session
           a == Play(c, Start(c), SubSeq(e.steps, 1, n))
           b == Play(c, Start(c), SubSeq(e.steps, n + 1, Len(e.steps)))
           two == e.where = "both"
       IN (IF e.op.out = "ok" THEN {} ELSE {"ends exactly when done"})
          \cup (IF e.op.out = "ok" /\ e.start = (IF e.where = "after" THEN << >> ELSE Line(a.acc, e.timeax)) THEN {} ELSE {"start line"})
          \cup (IF e.op.out = "ok" /\ e.stop = (IF e.where = "before" THEN << >> ELSE Line(IF two THEN b.acc ELSE a.acc, e.timeax)) THEN {} ELSE {"end line"})
=============================================================================
