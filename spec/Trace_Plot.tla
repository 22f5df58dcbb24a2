----------------------------- MODULE Trace_Plot -----------------------------
EXTENDS Plot, TraceLib
BagOf(q) == LET P(i) == <<q[i][1], q[i][2]>> IN {<<q[i][1], q[i][2], Cardinality({j \in DOMAIN q : P(j) = P(i)})>> : i \in DOMAIN q}
Lines(ax) == [i \in DOMAIN ax |-> [ax[i] EXCEPT !.pts = BagOf(ax[i].pts)]]
AllLines(axes) == [a \in DOMAIN axes |-> Lines(axes[a])]
Clause(ok, name) == IF ok THEN {} ELSE {name}
Suite(e) ==
  LET o == e.op  d == DrawSuite(AllLines(e.before), e.s, o.xts, o.yts, o.sty, o.masks)  g == AllLines(e.after)
  IN Clause(o.out = d.out, "outcome")
     \cup (IF o.out # "ok" \/ d.out # "ok" THEN {}
           ELSE Clause(\A a \in DOMAIN o.xts : \A j \in 1..2 : Titles(o.xts, o.yts)[a][j] \in {"", e.titles[a][j]}, "axes named")
           \cup Clause(Len(g) = Len(d.axes) /\ \A a \in DOMAIN g : Len(g[a]) = Len(d.axes[a]), "one line per member on each pair of axes")
           \cup (IF Len(g) = Len(d.axes) /\ \A a \in DOMAIN g : Len(g[a]) = Len(d.axes[a])
                 THEN UNION {{f \in {"pts", "color", "marker", "name"} : \E i \in DOMAIN g[a] : g[a][i][f] # d.axes[a][i][f]} : a \in DOMAIN g} ELSE {}))
Fall(e) ==
  LET o == e.op  a == e.a
  IN Clause(o.out = "ok", "fails")
     \cup (IF o.out # "ok" THEN {} ELSE
       Clause(e.titles = <<IF o.time = "x" THEN <<"time(s)", "distance(m)">> ELSE <<"distance(m)", "time(s)">>>>, "axes named")
       \cup Clause(Len(e.lines) = Len(a.r.pos), "one trace per sensor")
       \cup (IF Len(e.lines) # Len(a.r.pos) THEN {} ELSE
          Clause(\A c \in DOMAIN e.lines : Len(e.lines[c].x) = NSamp(a.r) /\ \A i \in 1..NSamp(a.r) : e.lines[c].t[i] = TimeOf(a.r, i), "time axis")
          \cup Clause(\A c \in DOMAIN e.lines : Len(e.lines[c].x) = NSamp(a.r) => \A i \in 1..NSamp(a.r) : OnTrace(a, o, c, i, e.lines[c].x[i], 200), "trace at its position")
          \cup Clause(\A c \in DOMAIN e.lines : e.lines[c].color = o.color, "style"))
       \cup Clause(e.tlim = (IF o.time = "y" THEN <<TimeOf(a.r, NSamp(a.r)), TimeOf(a.r, 1)>> ELSE <<TimeOf(a.r, 1), TimeOf(a.r, NSamp(a.r))>>), "extent of time")
       \cup Clause(LET p == FallPos(a, o.shift) IN e.plim[1] <= 200 * p[1] /\ e.plim[2] >= 200 * p[Len(p)], "all positions in view"))
Schematic(e) ==
  Clause(e.op.out = "ok", "fails")
  \cup (IF e.op.out # "ok" THEN {} ELSE
    Clause(Len(e.lines) = 2, "sensors and source")
    \cup (IF Len(e.lines) # 2 THEN {} ELSE Clause(e.lines[1] = [i \in DOMAIN e.xy |-> e.xy[i]], "sensors") \cup Clause(e.lines[2] = <<e.src>>, "source"))
    \cup Clause(e.said.n = Len(e.xy), "number of sensors")
    \cup Clause(e.said.spacing = Views(e.a).spacing, "spacing") \cup Clause(e.said.src = e.src[1], "source position"))
Stats(e) == Clause(e.op.out = "ok", "fails") \cup Clause(e.op.out # "ok" \/ e.line = e.means, "means")
            \cup Clause(e.op.out # "ok" \/ BagOf(e.bars) = BagOf([i \in DOMAIN e.means |-> <<e.means[i][2] - e.sd[i], e.means[i][2] + e.sd[i]>>]), "bars")
Snr(e) == Clause(e.op.out = "ok", "fails")
          \cup (IF e.has THEN Clause(e.lines = <<e.want>>, "ratio at its frequencies") \cup Clause(e.op.out # "ok" \/ e.titles = <<<<"frequency(hz)", "signal-to-noiseratio">>>>, "axes named") ELSE Clause(e.lines = << >> /\ e.warned, "nothing to draw is said"))
Near(e) == Clause(e.op.out = "ok", "fails") \cup Clause(e.op.out # "ok" \/ e.titles = <<<<"frequency(hz)", "phasevelocity(m/s)">>>>, "axes named")
           \cup Clause(e.op.out # "ok" \/ (Len(e.line) >= 2 /\ \A i \in DOMAIN e.line : LET d == e.line[i][2] * e.nf - e.line[i][1] * e.acd IN d <= e.acd + e.nf /\ -d <= e.acd + e.nf), "near-field line")
           \cup Clause(e.op.out # "ok" \/ (e.span[1] >= e.line[1][1] /\ e.span[2] <= e.line[Len(e.line)][1]), "near-field line over all frequencies")
TheVerdict(i) ==
  LET e == Trace[i]
  IN (CASE e.op.name = "suite" -> Suite(e) [] e.op.name = "waterfall" -> Fall(e) [] e.op.name = "schematic" -> Schematic(e)
        [] e.op.name = "statistics" -> Stats(e) [] e.op.name = "snr" -> Snr(e) [] e.op.name = "nearfield" -> Near(e))
     \cup Clause(e.kept, "data unchanged")
=============================================================================
