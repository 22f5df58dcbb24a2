---------------------------- MODULE Trace_Peaks ----------------------------
EXTENDS Peaks, TraceLib
Sc(a) == CASE a = "slowness" -> 1000000 [] a = "wavelength" -> 1000 [] a = "wavenumber" -> 100000 [] OTHER -> 4
\* what is reported of a set: one value per valid peak in order, for each attribute
BadReport(m, rep) ==
  LET o == Order(m, 1) IN
  {a \in Extended(m) :
     \/ a \notin DOMAIN rep
     \/ a \in DOMAIN rep /\ Len(rep[a]) # Len(o)
     \/ a \in DOMAIN rep /\ Len(rep[a]) = Len(o) /\
        \E i \in 1..Len(o) : IF Lacks(m, a, o[i]) THEN rep[a][i] # Nan
                             ELSE IF a \in Derived THEN ~Near(rep[a][i], Rat(m, a, o[i]), Sc(a))
                             ELSE rep[a][i] # m.data[a][o[i]]}
TheVerdict(i) ==
  LET e == Trace[i]
      want == IF e.op.name = "create" THEN [j \in 1..Len(e.pre) |-> Fresh(e.pre[j])]
              ELSE IF e.op.name = "nothing" THEN e.pre ELSE Apply(e.pre, e.op)
  IN (IF e.seq = 1 \/ Continues(i) THEN {} ELSE {"continues"})
     \cup (IF e.op.out = "ok" THEN {} ELSE {"outcome"})
     \cup (IF Len(e.post) = Len(want) THEN {} ELSE {"members"})
     \cup (IF Len(e.post) = Len(want) /\ \E j \in 1..Len(want) : e.post[j].valid # want[j].valid THEN {"valid peaks"} ELSE {})
     \cup (IF Len(e.post) = Len(want) /\ \E j \in 1..Len(want) : [e.post[j] EXCEPT !.valid = want[j].valid] # want[j] THEN {"stored values"} ELSE {})
     \cup (IF Len(e.rep) = Len(e.post) THEN UNION {BadReport(e.post[j], e.rep[j]) : j \in 1..Len(e.post)} ELSE {"reports"})
=============================================================================
