--------------------------- MODULE Trace_Registry ---------------------------
EXTENDS Registry, TraceLib
\* e.pre and e.post list, per registry, the ids of the classes under the names used so far
TheVerdict(i) ==
  LET e == Trace[i]
      d == DoR(e.pre, e.op)
  IN (IF Continues(i) THEN {} ELSE {"continuity"})
     \cup (IF d.out = e.op.out THEN {} ELSE {"outcome"})
     \cup (IF d.out # "ok" \/ d.got = e.op.got THEN {} ELSE {"class"})
     \cup (IF d.st = e.post THEN {} ELSE {"state"})
     \cup (IF e.op.name # "instance" \/ d.out # "ok" \/ e.argsok THEN {} ELSE {"arguments"})
=============================================================================
