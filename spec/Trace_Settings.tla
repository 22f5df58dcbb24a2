--------------------------- MODULE Trace_Settings ---------------------------
EXTENDS Settings, TraceLib
TheVerdict(i) ==
  LET e == Trace[i]
      d == Dict(e.given)
  IN (IF e.op.out = "ok" THEN {} ELSE {"outcome"})
     \cup {p \in Places \cup DOMAIN e.dict : p \notin DOMAIN e.dict \/ p \notin Places}
     \cup {p \in Places : p \in DOMAIN e.dict /\ e.dict[p] # d[p]}
     \cup (IF e.equal THEN {} ELSE {"equal calls give equal dictionaries"})
     \cup (IF e.independent THEN {} ELSE {"dictionaries are independent"})
=============================================================================
