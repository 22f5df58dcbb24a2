-------------------------- MODULE Trace_Inversion --------------------------
EXTENDS Inversion, TraceLib
TheVerdict(i) ==
  LET e == Trace[i]
  IN (IF e.op.out = "ok" THEN {} ELSE {"fails"})
     \cup (IF e.det = Det(S(e.x)) THEN {} ELSE {"determinant of the harness"})
     \cup (IF e.op.out # "ok" \/ e.update = Update(e.x) THEN {} ELSE {"update"})
     \cup (IF e.op.out # "ok" \/ e.post = Posterior(e.x) THEN {} ELSE {"posterior covariance"})
     \cup (IF e.kept THEN {} ELSE {"inputs unchanged"})
=============================================================================
