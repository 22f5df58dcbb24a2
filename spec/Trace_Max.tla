----------------------------- MODULE Trace_Max -----------------------------
EXTENDS MaxFile, TraceLib
TheVerdict(i) ==
  LET e == Trace[i]
      r == Read(e.files, e.op.wave, e.op.suite)
  IN (IF e.op.out = r.out \/ (r.out = "error" /\ e.op.out # "ok") THEN {} ELSE {"outcome"})
     \cup (IF r.out # "ok" \/ e.op.out # "ok" THEN {} ELSE
           (IF Len(e.sets) = Len(r.sets) THEN {} ELSE {"one set per window"})
           \cup (IF Len(e.sets) = Len(r.sets) /\ \E j \in 1..Len(e.sets) : e.sets[j].id # r.sets[j].id THEN {"identifiers"} ELSE {})
           \cup (IF Len(e.sets) = Len(r.sets) /\ \E j \in 1..Len(e.sets) : e.sets[j].peaks # r.sets[j].peaks THEN {"peaks"} ELSE {})
           \cup (IF e.onefreq THEN {} ELSE {"grouped by frequency"}))
     \cup (IF e.kept THEN {} ELSE {"file unchanged"})
=============================================================================
