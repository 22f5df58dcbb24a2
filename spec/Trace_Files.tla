---------------------------- MODULE Trace_Files ----------------------------
EXTENDS Files, TraceLib
Diff(s, t) == {f \in {"kind", "w", "t0", "delay", "n", "dt", "pos"} : s.r[f] # t.r[f]}
              \cup {f \in {"src", "sy", "ys"} : s[f] # t[f]}
TheVerdict(i) ==
  LET e == Trace[i]
      op == e.op
  IN CASE op.name = "read" ->
            LET o == Read(op.files, op.mx, op.my)
            IN (IF o.out = op.out THEN {} ELSE {"outcome"}) \cup Diff(o.a, e.post)
       [] op.name = "roundtrip" ->
            (IF Representable(e.pre) THEN {} ELSE {"not representable"})
            \cup (LET o == Read(<<Write(e.pre)>>, Id, Id)
                  IN (IF o.out = op.out THEN {} ELSE {"outcome"}) \cup Diff(o.a, e.back) \cup Diff(e.pre, e.back) \cup Diff(e.pre, e.post))
       [] op.name = "xsource" ->
            LET o == Read(op.files, op.mx, op.my)
            IN (IF o.out = op.out THEN {} ELSE {"outcome"}) \cup Diff(o.a, e.post)
               \cup (IF o.out = "ok" /\ e.sig # SumSignals(op.sfiles, op.ch) THEN {"source signal"} ELSE {})
               \cup (IF o.out = "ok" /\ e.sdt # op.sfiles[1].tr[op.ch].dt THEN {"source time step"} ELSE {})
       [] op.name = "xcorr" ->
            (IF op.out = "ok" THEN {} ELSE {"outcome"})
            \cup Diff(XCorr(e.pre, e.sig, op.vmin, op.vmax, e.sdt), e.post)
       [] op.name = "trace" ->
            LET o == ReadTrace(op.file, op.file.tr[1], op.mx, op.my, op.said, op.marked, op.header, op.given)
            IN (IF o.out = op.out THEN {} ELSE {"outcome"})
               \cup {f \in DOMAIN o.s : f # "z" /\ o.s[f] # e.post[f]}
               \cup (IF op.sensor /\ o.s.z # e.post.z THEN {"z"} ELSE {})
               \cup (IF e.kept THEN {} ELSE {"trace changed"})
       [] op.name = "badtype" -> (IF op.out = "ValueError" THEN {} ELSE {"outcome"}) \cup Diff(e.pre, e.post)
=============================================================================
