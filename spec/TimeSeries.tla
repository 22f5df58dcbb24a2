----------------------------- MODULE TimeSeries -----------------------------
(* The life of recorded time series: ActiveTimeSeries, Sensor1C and the      *)
(* records of an Array1D (one channel per sensor, processed in lock step).   *)
(*                                                                           *)
(* A record is                                                               *)
(*   w     its channels; w[c][i] is the sample times the stack count, so it  *)
(*         stays an integer however often integer records are stacked        *)
(*   t0    time of the first sample, in quarters of a time step (so that a   *)
(*         request can fall between samples)                                 *)
(*   delay the trigger delay reported (it must agree with t0)                *)
(*   n     stack count                                                       *)
(*   mult  how many true frequency steps make one user-facing step           *)
(*   dt    identity of the time step, pos identity of the position(s)        *)
(* The world holds two slots: an original and (perhaps) a copy of it.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == [kind |-> "none", w |-> << >>, t0 |-> 0, delay |-> 0, n |-> 0, mult |-> 0, dt |-> 0, pos |-> << >>]
NSamp(r) == IF r.w = << >> THEN 0 ELSE Len(r.w[1])
LastTime(r) == r.t0 + 4 * (NSamp(r) - 1)
TimeOf(r, i) == r.t0 + 4 * (i - 1)

-----------------------------------------------------------------------------
(* Trim to [a, b], times in quarter steps.                                   *)
TrimLegal(r, a, b) == r.t0 <= a /\ a < b /\ b <= LastTime(r)
Nearest(r, t) == ((t - r.t0 + 1) \div 4) + 1       \* the lower one when exactly between
Tie(r, t) == (t - r.t0) % 4 = 2
Trim(r, a, b) ==
  IF ~TrimLegal(r, a, b) THEN [st |-> r, out |-> "IndexError"]
  ELSE [st |-> [r EXCEPT !.w = TLCEval([c \in DOMAIN r.w |-> SubSeq(r.w[c], Nearest(r, a), Nearest(r, b))]),
                         !.t0 = a, !.delay = a],
        out |-> "ok"]

(* Zero padding towards a true length of `target` samples (df = 1/(target*dt)). *)
(* target <= 0 stands for a request with a non-positive df.                   *)
Zeros(n) == [i \in 1..n |-> 0]
PadLen(len, target) == IF len <= target THEN target - len
                       ELSE IF len % target = 0 THEN 0 ELSE target - (len % target)
Pad(r, target) ==
  IF target <= 0 THEN [st |-> r, out |-> "ValueError"]
  ELSE LET p == PadLen(NSamp(r), target)
       IN [st |-> [r EXCEPT !.w = TLCEval([c \in DOMAIN r.w |-> r.w[c] \o Zeros(p)]),
                            !.mult = (NSamp(r) + p) \div target],
           out |-> "ok"]

(* Stacking x onto r. *)
Stackable(r, x) == /\ r.kind = x.kind /\ r.dt = x.dt /\ r.delay = x.delay
                   /\ NSamp(r) = NSamp(x) /\ r.pos = x.pos
Stack(r, x) ==
  IF ~Stackable(r, x) THEN [st |-> r, out |-> "ValueError"]
  ELSE [st |-> [r EXCEPT !.w = TLCEval([c \in DOMAIN r.w |-> TLCEval([i \in DOMAIN r.w[c] |-> r.w[c][i] + x.w[c][i]])]),
                         !.n = r.n + x.n],
        out |-> "ok"]

-----------------------------------------------------------------------------
(* One operation on the world s = <<first, second>>; total: errors are outcomes. *)
Do(s, op) ==
  CASE op.name = "trim" -> LET r == Trim(s[op.i], op.a, op.b)
                           IN [st |-> [s EXCEPT ![op.i] = r.st], out |-> r.out]
    [] op.name = "pad"  -> LET r == Pad(s[op.i], op.target)
                           IN [st |-> [s EXCEPT ![op.i] = r.st], out |-> r.out]
    [] op.name = "stack" -> LET r == Stack(s[op.i], s[op.j])
                           IN [st |-> [s EXCEPT ![op.i] = r.st], out |-> r.out]
    [] op.name = "bogus" -> [st |-> s, out |-> "ValueError"]
    [] op.name = "copy" -> [st |-> [s EXCEPT ![op.j] = s[op.i]], out |-> "ok"]
    [] op.name = "drop" -> [st |-> [s EXCEPT ![op.i] = None], out |-> "ok"]

-----------------------------------------------------------------------------
(* The properties, stated independently of the definitions above.            *)
IsSubRange(small, big) == \E o \in 0..(Len(big) - Len(small)) :
                              \A i \in 1..Len(small) : small[i] = big[o + i]

\* P01: on-grid bounds keep exactly the samples with a <= time <= b.
TrimExact(r, a, b) ==
  LET res == Trim(r, a, b)
      keep == {i \in 1..NSamp(r) : a <= TimeOf(r, i) /\ TimeOf(r, i) <= b}
  IN IF res.out = "ok" /\ (a - r.t0) % 4 = 0 /\ (b - r.t0) % 4 = 0
     THEN /\ NSamp(res.st) = Cardinality(keep)
          /\ \A c \in DOMAIN r.w : \A i \in keep :
                res.st.w[c][i - (CHOOSE m \in keep : \A x \in keep : m <= x) + 1] = r.w[c][i]
          /\ \A i \in 1..NSamp(res.st) : a <= TimeOf(res.st, i) /\ TimeOf(res.st, i) <= b
     ELSE res.out = "ok" \/ res.st = r
\* P02: the padded record is the old one followed by the fewest zeros that make it a multiple.
PadExact(r, target) ==
  LET res == Pad(r, target)
  IN IF res.out # "ok" THEN res.st = r
     ELSE /\ NSamp(res.st) = res.st.mult * target
          /\ NSamp(res.st) >= NSamp(r)
          /\ NSamp(res.st) - NSamp(r) < target \/ NSamp(r) < target
          /\ \A c \in DOMAIN r.w : /\ SubSeq(res.st.w[c], 1, NSamp(r)) = r.w[c]
                                   /\ \A i \in (NSamp(r)+1)..NSamp(res.st) : res.st.w[c][i] = 0
          /\ Pad(res.st, target).st = res.st
\* P03: stacking is commutative up to which slot holds the result, and never rewrites the other.
StackExact(r, x) ==
  LET res == Stack(r, x)
  IN IF res.out # "ok" THEN res.st = r
     ELSE /\ res.st.n = r.n + x.n
          /\ Stack(x, r).st.w = res.st.w
\* P04: an operation on one slot leaves the other one alone.
Frame(s, op) == \A k \in DOMAIN s :
                  (IF op.name = "copy" THEN k # op.j ELSE k # op.i) => Do(s, op).st[k] = s[k]
=============================================================================
