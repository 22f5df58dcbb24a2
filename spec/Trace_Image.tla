---------------------------- MODULE Trace_Image ----------------------------
EXTENDS Image, TraceLib
\* e.shown[v][f] is the picture times 10000 (or the magnitude itself when not normalised)
AbsI(x) == IF x < 0 THEN -x ELSE x
ShownOK(i, shown) == \A v \in DOMAIN i.m, f \in DOMAIN i.m[1] :
   LET r == Shown(i, v, f) IN AbsI(shown[v][f] * r[2] - 10000 * r[1]) <= 2 * r[2]
TheVerdict(l0) ==
  LET e == Trace[l0]
      op == e.op
  IN (IF op.out # (IF e.want = "stack" THEN StackOut(e.pre, e.x) ELSE e.want) THEN {"outcome"} ELSE {}) \cup
     CASE op.name \in {"normalize", "pick", "plot", "unknown"} ->
            LET post == IF op.name \in {"pick", "unknown"} THEN e.pre ELSE Normalize(e.pre, op.by)
            IN (IF e.raw \/ ShownOK(post, e.shown) THEN {} ELSE {"image"})
               \cup (IF op.name \in {"normalize", "unknown"} \/ e.picks = Picks(post) THEN {} ELSE {"picks"})
       [] op.name = "stack" -> LET t == IF e.want = "AttributeError" THEN e.pre ELSE Stack(e.pre, e.x)
                               IN (IF t = e.post THEN {} ELSE {"sum"}) \cup (IF e.xafter = e.x THEN {} ELSE {"stacked image changed"})
=============================================================================
