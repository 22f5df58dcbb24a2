----------------------------- MODULE Trace_Array -----------------------------
EXTENDS Array, TraceLib
Near(x, y, tol) == x - y <= tol /\ y - x <= tol
Diff(s, t) == {f \in {"kind", "w", "t0", "delay", "n", "mult", "dt", "pos"} : s.r[f] # t.r[f]} \cup (IF s.src = t.src THEN {} ELSE {"source"})

MatrixOK(r, op, m) ==       \* m is the logged matrix times 1000
  LET rows == Rows(r, op.detrend)
      f == Factor(r, op.detrend)
      all == MaxOf({MaxAbs(rows[c]) : c \in DOMAIN rows})
  IN /\ Len(m) = Len(rows)
     /\ \A c \in DOMAIN rows :
          /\ Len(m[c]) = Len(rows[c])
          /\ LET d == CASE op.norm = "none" -> f [] op.norm = "each" -> MaxAbs(rows[c]) [] op.norm = "all" -> all
             IN \A i \in DOMAIN rows[c] : Near(m[c][i] * d, 1000 * rows[c][i], d)
\* First-arrival pick: sample number p of row w (detrended, so exact), threshold th per mille.
Departs(w, i, th, slack) ==
  LET n == IF Len(w) < 10 THEN Len(w) ELSE 10
      lvl == SumSeq(SubSeq(w, 1, n))
      mx == MaxAbs(w)
  IN Abs(n * w[i] - lvl) * 100 > (th + slack) * n * mx
PickOK(w, p, th) == /\ p >= 1 /\ p <= Len(w)
                    /\ Departs(w, p, th, -1) /\ \A i \in 1..(p-1) : ~Departs(w, i, th, 1)
PicksOK(r, op, e) == /\ Len(e.picks) = Len(r.pos) /\ e.pickpos = r.pos
                     /\ \A c \in DOMAIN r.pos : (e.picks[c] - r.t0) % 4 = 0
                            /\ PickOK(Det(r.w[c]), ((e.picks[c] - r.t0) \div 4) + 1, op.th)
Pickable(r, th) == \A c \in DOMAIN r.pos : \E i \in 1..NSamp(r) : Departs(Det(r.w[c]), i, th, 1)

\* Tapered mute: win[L+1] is the window of length L in units of 1/20000, m the logged rows times 20000/n.
TaperOK(r, op, win, m) ==
  /\ Len(m) = Len(r.pos)
  /\ \A c \in DOMAIN r.pos : /\ Len(m[c]) = NSamp(r)
       /\ LET s0 == Lo(r, op.sl, r.pos[c])
              s1 == Hi(r, op.el, r.pos[c])
          IN \A i \in 1..NSamp(r) :
               IF i > s0 /\ i <= s1 THEN Near(m[c][i], r.w[c][i] * win[s1 - s0 + 1][i - s0], Abs(r.w[c][i]) + 1)
               ELSE m[c][i] = 0

TheVerdict(i) ==
  LET e == Trace[i]
      op == e.op
  IN (IF Continues(i) THEN {} ELSE {"history"}) \cup
     CASE op.name = "build" ->
            LET b == Build(op.ss, op.src)
            IN (IF b.out = op.out THEN {} ELSE {"outcome"})
               \cup (IF b.out # "ok" \/ op.out # "ok" THEN {} ELSE Diff(b.a, e.post)
                     \cup {f \in DOMAIN e.views : e.views[f] # Views(b.a)[f]})
       [] op.name \in {"offsets", "trim", "pad"} ->
            LET t == DoA(e.pre, op)
            IN (IF t.out = op.out THEN {} ELSE {"outcome"}) \cup Diff(t.st, e.post)
               \cup (IF "views" \in DOMAIN e THEN {f \in DOMAIN e.views : e.views[f] # Views(e.post)[f]} ELSE {})
       [] op.name = "mute" ->
            (IF op.out = "ok" THEN {} ELSE {"outcome"})
            \cup (IF op.alpha = 0 THEN Diff(MuteBox(e.pre, op.sl, op.el), e.post)
                  ELSE (IF TaperOK(e.pre.r, op, e.win, e.m) THEN {} ELSE {"window"})
                       \cup (Diff(e.pre, e.post) \ {"w"}))
       [] op.name = "matrix" -> (IF op.out = "ok" THEN {} ELSE {"outcome"})
            \cup (IF MatrixOK(e.pre.r, op, e.m) THEN {} ELSE {"matrix"}) \cup Diff(e.pre, e.post)
       [] op.name = "pick" ->
            (IF Pickable(e.pre.r, op.th)
             THEN (IF op.out = "ok" /\ PicksOK(e.pre.r, op, e) THEN {} ELSE {"picks"})
             ELSE {}) \cup Diff(e.pre, e.post)
=============================================================================
