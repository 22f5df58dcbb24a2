------------------------------- MODULE Files -------------------------------
(* Shot records on disk and the arrays read from them.                       *)
(* Lengths are in 1/10000 m, times in microseconds (so the t0, delay and dt  *)
(* of a record are microseconds here, not quarter steps).                    *)
(* A file is [fmt, scal, units, sx, sy, tr] where tr is a sequence of        *)
(*   [x, y, st, delay, dt, w]: header values exactly as stored.              *)
(* A map is [a, b] and stands for the user's function c -> a*c + b.          *)
(* An array is [r, src, sy, ys]: record, source x and y, receivers' y.       *)
EXTENDS Array

Fmts == {"SEG2", "SU", "SEGY"}
\* A header coordinate in 1/10000 m.
Coord(f, h) == CASE f.fmt = "SEG2" -> h
                 [] f.scal = 0 -> 10000 * h
                 [] f.scal > 0 -> 10000 * f.scal * h
                 [] f.scal < 0 -> (10000 \div (-f.scal)) * h      \* |scal| is 1, 10, ... 10000
YCoord(f, h) == IF f.fmt = "SEG2" THEN 0 ELSE Coord(f, h)
Mapped(m, c) == m.a * c + m.b
StackOf(f, t) == IF f.fmt # "SEG2" /\ t.st = 0 THEN 1 ELSE t.st
DelayOf(f, t) == IF f.fmt = "SEG2" THEN t.delay ELSE 1000 * t.delay
Decode(f, t, mx, my) ==
  [x |-> Mapped(mx, Coord(f, t.x)), y |-> Mapped(my, YCoord(f, t.y)), n |-> StackOf(f, t),
   t0 |-> DelayOf(f, t), dt |-> t.dt, w |-> LET n == StackOf(f, t) IN TLCEval([i \in DOMAIN t.w |-> n * t.w[i]])]
Source(f, mx, my) == <<Mapped(mx, Coord(f, f.sx)), Mapped(my, YCoord(f, f.sy))>>

\* A single trace: its format is what the caller says, else what the trace says; with the header unread, the
\* position, delay and stack count are the caller's (g).
FormatOf(said, marked) == IF said # "" THEN said ELSE marked
NoSensor == [x |-> 0, y |-> 0, z |-> 0, n |-> 0, t0 |-> 0, dt |-> 0, w |-> << >>]
Given(g, t) == [x |-> g.x, y |-> g.y, z |-> g.z, n |-> g.st, t0 |-> g.delay, dt |-> t.dt, w |-> TLCEval([i \in DOMAIN t.w |-> g.st * t.w[i]])]
ReadTrace(f, t, mx, my, said, marked, header, g) ==
  LET fmt == FormatOf(said, marked)
      d == IF header THEN Decode(f, t, mx, my) ELSE Given(g, t)
      s == [x |-> d.x, y |-> d.y, z |-> IF header THEN 0 ELSE g.z, n |-> d.n, t0 |-> d.t0, dt |-> d.dt, w |-> d.w]
  IN IF fmt = "" THEN [out |-> "ValueError", s |-> NoSensor]
     ELSE IF header /\ fmt \notin Fmts THEN [out |-> "NotImplementedError", s |-> NoSensor]
     ELSE IF s.t0 > 0 \/ s.n < 1 THEN [out |-> "ValueError", s |-> NoSensor]
     ELSE [out |-> "ok", s |-> s]

NoArray == [r |-> None, src |-> 0, sy |-> 0, ys |-> << >>]
Bad == [out |-> "ValueError", a |-> NoArray]
ReadOne(f, mx, my) ==
  LET ss == TLCEval([i \in DOMAIN f.tr |-> Decode(f, f.tr[i], mx, my)])
      s == Source(f, mx, my)
      b == Build(ss, s[1])
  IN IF f.fmt # "SEG2" /\ f.units \notin {0, 1} THEN Bad
     ELSE IF \E i \in DOMAIN ss : ss[i].t0 > 0 THEN Bad
     ELSE IF b.out # "ok" THEN Bad
     ELSE [out |-> "ok", a |-> [r |-> b.a.r, src |-> s[1], sy |-> s[2],
                                ys |-> [m \in DOMAIN ss |-> ss[Ranked(ss, m)].y]]]
\* Stack the array read from a further file onto a.
Merge(a, b) ==
  IF a.src # b.src \/ a.sy # b.sy \/ a.ys # b.ys \/ ~Stackable(a.r, b.r) THEN Bad
  ELSE [out |-> "ok", a |-> [a EXCEPT !.r = Stack(a.r, b.r).st]]
RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(acc, fs, mx, my) ==
  IF acc.out # "ok" \/ fs = << >> THEN acc
  ELSE LET b == ReadOne(Head(fs), mx, my)
       IN ReadFrom(IF b.out # "ok" THEN Bad ELSE Merge(acc.a, b.a), Tail(fs), mx, my)
Read(fs, mx, my) == ReadFrom(ReadOne(Head(fs), mx, my), Tail(fs), mx, my)

\* The SU file written for an array (millimetres and milliseconds).
Representable(a) == /\ \A i \in DOMAIN a.r.pos : a.r.pos[i] % 10 = 0 /\ a.ys[i] % 10 = 0
                    /\ a.src % 10 = 0 /\ a.sy % 10 = 0 /\ a.r.delay % 1000 = 0 /\ a.r.delay <= 0
                    /\ \A c \in DOMAIN a.r.w : \A i \in DOMAIN a.r.w[c] : a.r.w[c][i] % a.r.n = 0
Write(a) == [fmt |-> "SU", scal |-> -1000, units |-> 1, sx |-> a.src \div 10, sy |-> a.sy \div 10,
             tr |-> [c \in DOMAIN a.r.w |-> [x |-> a.r.pos[c] \div 10, y |-> a.ys[c] \div 10, st |-> a.r.n,
                        delay |-> a.r.delay \div 1000, dt |-> a.r.dt,
                        w |-> [i \in DOMAIN a.r.w[c] |-> a.r.w[c][i] \div a.r.n]]]]
Id == [a |-> 1, b |-> 0]

-----------------------------------------------------------------------------
(* An array whose source carries the averaged source signal s (its sum over  *)
(* nf files) of nm samples; cross-correlated over one window of lags.        *)
RECURSIVE SumSignals(_, _)
SumSignals(fs, ch) == IF Len(fs) = 1 THEN fs[1].tr[ch].w
                      ELSE LET t == SumSignals(Tail(fs), ch) IN TLCEval([i \in DOMAIN t |-> fs[1].tr[ch].w[i] + t[i]])
TruncDiv(p, d) == IF p >= 0 THEN p \div d ELSE -((-p) \div d)
OffMin(a) == MinOf({Offsets(a)[i] : i \in DOMAIN a.r.pos})
OffMax(a) == MaxOf({Offsets(a)[i] : i \in DOMAIN a.r.pos})
\* lags from FirstLag to LastLag, counted in samples
FirstLag(a, m, vmax, sdt) == LET i == m + TruncDiv(OffMin(a) * 100 - 500000 * vmax, vmax * sdt)
                             IN (IF i < 0 THEN 0 ELSE i) - (m - 1)
LastLag(a, m, vmin, sdt) == LET i == m + TruncDiv(OffMax(a) * 100, vmin * sdt)
                                full == NSamp(a.r) + m - 1
                            IN (IF i > full THEN full ELSE i) - 1 - (m - 1)
Corr(w, s, lag) == SumSeq([i \in DOMAIN s |-> IF i + lag >= 1 /\ i + lag <= Len(w) THEN w[i + lag] * s[i] ELSE 0])
XCorr(a, s, vmin, vmax, sdt) ==
  LET l0 == FirstLag(a, Len(s), vmax, sdt)
      l1 == LastLag(a, Len(s), vmin, sdt)
  IN [a EXCEPT !.r.w = TLCEval([c \in DOMAIN a.r.w |-> TLCEval([k \in 1..(l1 - l0 + 1) |-> Corr(a.r.w[c], s, l0 + k - 1)])]),
               !.r.t0 = 0, !.r.delay = 0]

-----------------------------------------------------------------------------
(* Properties. *)
\* P09: every trace appears once, at the position its own header gives.
HeadersExact(f, mx, my) ==
  LET o == ReadOne(f, mx, my)
  IN o.out = "ok" => \A i \in DOMAIN f.tr : \E c \in DOMAIN o.a.r.pos :
        /\ o.a.r.pos[c] = Mapped(mx, Coord(f, f.tr[i].x))
        /\ o.a.ys[c] = Mapped(my, YCoord(f, f.tr[i].y))
        /\ o.a.r.w[c] = [j \in DOMAIN f.tr[i].w |-> o.a.r.n * f.tr[i].w[j]]
\* P10
RoundTrip(a) == (a.r.kind = "array" /\ Representable(a)) => Read(<<Write(a)>>, Id, Id) = [out |-> "ok", a |-> a]
\* P11: for each receiver, the sum over all files of what was recorded there, whatever the order of traces and files.
StackExact2(fs, mx, my) ==
  LET o == Read(fs, mx, my)
  IN o.out = "ok" => \A c \in DOMAIN o.a.r.pos :
       LET at(f) == {i \in DOMAIN f.tr : Mapped(mx, Coord(f, f.tr[i].x)) = o.a.r.pos[c]}
       IN /\ \A k \in DOMAIN fs : Cardinality(at(fs[k])) = 1 /\ Len(fs[k].tr) = Len(o.a.r.pos)
          /\ o.a.r.n = SumSeq([k \in DOMAIN fs |-> StackOf(fs[k], fs[k].tr[1])])
          /\ \A j \in 1..NSamp(o.a.r) :
                o.a.r.w[c][j] = SumSeq([k \in DOMAIN fs |-> LET i == CHOOSE i \in at(fs[k]) : TRUE
                                                            IN StackOf(fs[k], fs[k].tr[i]) * fs[k].tr[i].w[j]])
Reversed(fs) == [k \in DOMAIN fs |-> fs[Len(fs) - k + 1]]
OrderFree(fs, mx, my) == Read(fs, mx, my).out = Read(Reversed(fs), mx, my).out
                         /\ Read(fs, mx, my).a = Read(Reversed(fs), mx, my).a
=============================================================================
