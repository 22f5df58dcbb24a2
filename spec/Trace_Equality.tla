--------------------------- MODULE Trace_Equality ---------------------------
EXTENDS Equality, TraceLib
TheVerdict(i) ==
  LET e == Trace[i]
      want == Equal(e.a, e.b)
  IN (IF e.eq = want THEN {} ELSE {"equal"}) \cup (IF e.qe = want THEN {} ELSE {"equal, asked the other way"})
     \cup (IF e.ne = ~want THEN {} ELSE {"unequal"}) \cup (IF e.kept THEN {} ELSE {"objects unchanged"})
=============================================================================
