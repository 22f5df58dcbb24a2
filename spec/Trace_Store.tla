---------------------------- MODULE Trace_Store ----------------------------
EXTENDS Store, TraceLib
TheVerdict(i) ==
  LET e == Trace[i]
      r == Do(e.pre, e.op)
  IN (IF e.seq = 1 \/ Continues(i) THEN {} ELSE {"continues"})
     \cup (IF r.out = e.op.out THEN {} ELSE {"outcome"})
     \cup {c \in {"heap", "suites", "files", "dicts"} : e.post[c] # r.w[c]}
     \cup (IF e.ids THEN {} ELSE {"ids match the members"})
     \cup (IF e.kept THEN {} ELSE {"arguments unchanged"})
     \cup (IF e.eq THEN {} ELSE {"equality"})
=============================================================================
