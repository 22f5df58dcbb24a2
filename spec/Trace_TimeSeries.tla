-------------------------- MODULE Trace_TimeSeries --------------------------
(* Recorded histories of real records must be behaviours of TimeSeries.      *)
EXTENDS TimeSeries, TraceLib
Fields == {"kind", "w", "t0", "delay", "n", "mult", "dt", "pos"}
TheVerdict(i) ==
  LET e == Trace[i]
      r == IF e.op.name = "other" THEN 0 ELSE Do(e.pre, e.op)
  IN IF e.op.name = "other"      \* whatever else is done to one record leaves the other alone
     THEN (IF e.post[3 - e.op.i] = e.pre[3 - e.op.i] THEN {} ELSE {"the other one changed"}) \cup (IF Continues(i) THEN {} ELSE {"history"})
     ELSE
     {f \in Fields : \E x \in {1, 2} : r.st[x][f] # e.post[x][f]}
     \cup (IF e.op.out = r.out THEN {} ELSE {"outcome"})
     \cup (IF Continues(i) THEN {} ELSE {"history"})
=============================================================================
