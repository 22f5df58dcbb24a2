------------------------------- MODULE Array -------------------------------
(* A linear array: sensors with positions, each carrying its own record, and *)
(* a source.  Positions are integers (half metres in the harness).           *)
(* An array is [r |-> record of kind "array" (see TimeSeries), src |-> int]. *)
EXTENDS TimeSeries

Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = << >> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

-----------------------------------------------------------------------------
(* Building: sensors arrive in any order as [x, w, n, t0, dt].               *)
Compatible(ss) == \A i, j \in DOMAIN ss : /\ ss[i].n = ss[j].n /\ ss[i].t0 = ss[j].t0
                                          /\ ss[i].dt = ss[j].dt /\ Len(ss[i].w) = Len(ss[j].w)
Distinct(ss) == \A i, j \in DOMAIN ss : i # j => ss[i].x # ss[j].x
\* index of the sensor with the m-th smallest position
Ranked(ss, m) == CHOOSE i \in DOMAIN ss : Cardinality({j \in DOMAIN ss : ss[j].x < ss[i].x}) = m - 1
Build(ss, src) ==
  IF ~Compatible(ss) \/ ~Distinct(ss) THEN [out |-> "ValueError", a |-> [r |-> None, src |-> src]]
  ELSE [out |-> "ok",
        a |-> [src |-> src,
               r |-> [kind |-> "array", w |-> [m \in DOMAIN ss |-> ss[Ranked(ss, m)].w],
                      t0 |-> ss[1].t0, delay |-> ss[1].t0, n |-> ss[1].n, mult |-> 1, dt |-> ss[1].dt,
                      pos |-> [m \in DOMAIN ss |-> ss[Ranked(ss, m)].x]]]]

Offsets(a) == [i \in DOMAIN a.r.pos |-> Abs(a.src - a.r.pos[i])]
Inside(a) == a.src > a.r.pos[1] /\ a.src < a.r.pos[Len(a.r.pos)]
Diffs(a) == [i \in 1..(Len(a.r.pos) - 1) |-> a.r.pos[i+1] - a.r.pos[i]]
Rev(q) == [i \in DOMAIN q |-> q[Len(q) - i + 1]]
Flip(a) == a.src > a.r.pos[Len(a.r.pos)]
Views(a) == [norm |-> [i \in DOMAIN a.r.pos |-> a.r.pos[i] - a.r.pos[1]],
             offsets |-> Offsets(a),
             nch |-> Len(a.r.pos),
             inside |-> Inside(a),
             offsum |-> SumSeq(Offsets(a)),
             mindiff |-> IF Len(a.r.pos) < 2 THEN 0 ELSE MinOf({Diffs(a)[i] : i \in DOMAIN Diffs(a)}),
             spacing |-> IF Len(a.r.pos) < 2 THEN 0
                         ELSE IF \A i \in DOMAIN Diffs(a) : Diffs(a)[i] = Diffs(a)[1] THEN Diffs(a)[1] ELSE -1,
             near |-> IF Flip(a) THEN Rev(Offsets(a)) ELSE Offsets(a),
             nearw |-> IF Flip(a) THEN Rev(a.r.w) ELSE a.r.w]

-----------------------------------------------------------------------------
(* Offset selection: strictly between lo and hi.                              *)
KeptIdx(a, lo, hi) == {i \in DOMAIN a.r.pos : Offsets(a)[i] > lo /\ Offsets(a)[i] < hi}
RECURSIVE AscSeq(_)
AscSeq(S) == IF S = {} THEN << >> ELSE LET m == MinOf(S) IN <<m>> \o AscSeq(S \ {m})
Select(a, lo, hi) ==
  LET ks == AscSeq(KeptIdx(a, lo, hi))
  IN IF ks = << >> THEN [st |-> a, out |-> "ValueError"]
     ELSE [st |-> [a EXCEPT !.r.pos = [i \in DOMAIN ks |-> a.r.pos[ks[i]]],
                            !.r.w = [i \in DOMAIN ks |-> a.r.w[ks[i]]]],
           out |-> "ok"]

-----------------------------------------------------------------------------
(* Muting.  A line is <<x1, t1, x2, t2>> (t in quarter steps); << >> is none. *)
(* StartIdx counts the samples before the line at position x; the window     *)
(* covers the samples numbered StartIdx+1 .. StopIdx, as far as the record    *)
(* has them.                                                                  *)
LineIdx(r, ln, x) == LET dx0 == ln[3] - ln[1]
                         s == IF dx0 < 0 THEN -1 ELSE 1
                         dx == s * dx0
                     IN ((ln[2] - r.t0) * dx + s * (ln[4] - ln[2]) * (x - ln[1])) \div (4 * dx)
OnEdge(r, ln, x) == LET dx == Abs(ln[3] - ln[1])
                    IN ((ln[2] - r.t0) * dx + (IF ln[3] < ln[1] THEN -1 ELSE 1) * (ln[4] - ln[2]) * (x - ln[1])) % (4 * dx) = 0
Lo(r, ln, x) == IF ln = << >> THEN 0 ELSE LineIdx(r, ln, x)
Hi(r, ln, x) == IF ln = << >> THEN NSamp(r) - 1 ELSE LineIdx(r, ln, x)
\* What is specified: the start line does not come after the end line at any sensor; lines may leave the record on either
\* side (part of the window is then outside it), before it only at whole samples.
Whole(r, ln, x) == IF ln = << >> THEN TRUE ELSE IF LineIdx(r, ln, x) >= 0 THEN TRUE ELSE OnEdge(r, ln, x)
Proper(r, sl, el) == \A i \in DOMAIN r.pos : /\ Lo(r, sl, r.pos[i]) <= Hi(r, el, r.pos[i])
                                            /\ Whole(r, sl, r.pos[i]) /\ Whole(r, el, r.pos[i])
\* Rectangular mute (no taper): keeps the samples inside the window, zero elsewhere.
MuteBox(a, sl, el) ==
  [a EXCEPT !.r.w = TLCEval([c \in DOMAIN a.r.w |->
      LET b == Lo(a.r, sl, a.r.pos[c])  e == Hi(a.r, el, a.r.pos[c])
      IN TLCEval([i \in DOMAIN a.r.w[c] |-> IF i > b /\ i <= e THEN a.r.w[c][i] ELSE 0])])]

\* Least-squares detrending, times len*(len^2-1), exactly.
Det(w) == LET N == Len(w)
              S == SumSeq(w)
              M == SumSeq([j \in 1..N |-> (2*j - N - 1) * w[j]])
          IN TLCEval([i \in 1..N |-> N * (N*N - 1) * w[i] - (N*N - 1) * S - 3 * M * (2*i - N - 1)])
MaxAbs(q) == MaxOf({Abs(q[i]) : i \in DOMAIN q})
\* detrended (or not) rows and the factor they are multiplied with
Rows(r, det) == IF det THEN TLCEval([c \in DOMAIN r.w |-> Det(r.w[c])]) ELSE r.w
Factor(r, det) == r.n * (IF det THEN NSamp(r) * (NSamp(r) * NSamp(r) - 1) ELSE 1)

-----------------------------------------------------------------------------
DoA(a, op) ==
  CASE op.name = "offsets" -> Select(a, op.lo, op.hi)
    [] op.name = "mute" -> [st |-> MuteBox(a, op.sl, op.el), out |-> "ok"]
    [] op.name = "trim" -> LET t == Trim(a.r, op.a, op.b) IN [st |-> [a EXCEPT !.r = t.st], out |-> t.out]
    [] op.name = "pad" -> LET t == Pad(a.r, op.target) IN [st |-> [a EXCEPT !.r = t.st], out |-> t.out]

-----------------------------------------------------------------------------
(* Properties. *)
\* P06
Sorted(a) == \A i \in 1..(Len(a.r.pos) - 1) : a.r.pos[i] < a.r.pos[i+1]
Associated(ss, a) == \A s \in DOMAIN ss : \E c \in DOMAIN a.r.pos : a.r.pos[c] = ss[s].x /\ a.r.w[c] = ss[s].w
Beyond(a) == a.src <= a.r.pos[1] \/ a.src > a.r.pos[Len(a.r.pos)]
NearToFar(a) == Beyond(a) => \A i \in 1..(Len(a.r.pos) - 1) : Views(a).near[i] < Views(a).near[i+1]
\* P07
SelectExact(a, lo, hi) ==
  LET t == Select(a, lo, hi).st
  IN Select(a, lo, hi).out = "ok" =>
       /\ \A i \in DOMAIN a.r.pos : (Abs(a.src - a.r.pos[i]) > lo /\ Abs(a.src - a.r.pos[i]) < hi)
             <=> (\E j \in DOMAIN t.r.pos : t.r.pos[j] = a.r.pos[i] /\ t.r.w[j] = a.r.w[i])
       /\ Sorted(t)
       /\ Select(t, lo, hi).st = t
\* P08
MuteExact(a, sl, el) ==
  LET t == MuteBox(a, sl, el)
  IN /\ MuteBox(t, sl, el) = t
     /\ \A c \in DOMAIN a.r.w : \A i \in DOMAIN a.r.w[c] : t.r.w[c][i] \in {0, a.r.w[c][i]}
     /\ t.r.pos = a.r.pos /\ t.src = a.src
=============================================================================
