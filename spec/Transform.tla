----------------------------- MODULE Transform -----------------------------
(* Wavefield transforms of an array.  A job is a record                      *)
(*   rows  one integer record per receiver, by increasing offset             *)
(*   off   the receivers' offsets (position units)                           *)
(*   N     number of samples (rows may be shorter: zero padded)              *)
(*   mult  number of true frequency steps per user-facing step               *)
(*   f0 f1 frequency limits in quarters of a true frequency step             *)
(*   M     order of the roots of unity used                                  *)
(*   s     per trial velocity, the phase (in 1/M cycles) gained per position *)
(*         unit and frequency index: a velocity is identified by its slowness*)
(*   weighting, steering                                                     *)
EXTENDS Ring

-----------------------------------------------------------------------------
(* P16: which frequency indices are kept. *)
Nearer(x, a, b) == RAbs(4 * a - x) < RAbs(4 * b - x) \/ (RAbs(4 * a - x) = RAbs(4 * b - x) /\ a <= b)
NearestIdx(N, x) == CHOOSE k \in 0..(N - 1) : \A j \in 0..(N - 1) : Nearer(x, k, j)
\* the same index without search
NearestFast(N, x) == LET k == (x + 1) \div 4 IN IF k < 0 THEN 0 ELSE IF k > N - 1 THEN N - 1 ELSE k
KeptSeq(lo, hi, m) == IF hi < lo THEN << >> ELSE [i \in 1..(((hi - lo) \div m) + 1) |-> lo + (i - 1) * m]
Kept(N, f0, f1, mult) == KeptSeq(NearestFast(N, f0), NearestFast(N, f1), mult)

\* P16, stated independently: nearest to the limits, and every mult-th in between
KeptExact(N, f0, f1, mult) ==
  LET ks == Kept(N, f0, f1, mult)
  IN /\ NearestFast(N, f0) = NearestIdx(N, f0) /\ NearestFast(N, f1) = NearestIdx(N, f1)
     /\ f0 <= f1 => ks # << >> /\ ks[1] = NearestIdx(N, f0)
     /\ \A k \in 0..(N - 1) : (\E i \in DOMAIN ks : ks[i] = k) <=>
             (k >= NearestIdx(N, f0) /\ k <= NearestIdx(N, f1) /\ (k - NearestIdx(N, f0)) % mult = 0)
     /\ \A i \in 1..(Len(ks) - 1) : ks[i + 1] = ks[i] + mult

(* Trial velocities, in units of 1/1000 of vmin. *)
LinearOK(v, n) == Len(v) = n /\ \A i \in 2..(n - 1) : RAbs((v[i] - v[1]) * (n - 1) - (i - 1) * (v[n] - v[1])) <= 2 * n
LogOK(v, n) == Len(v) = n /\ \A i \in 2..(n - 1) : RAbs(v[i] * v[i] - v[i - 1] * v[i + 1]) <= 4 * v[n]

-----------------------------------------------------------------------------
(* P19: powers. *)
Unit(M, w, f) == LET n == CHOOSE n \in DOMAIN w : w[n] # 0        \* of a record with a single nonzero sample
                 IN Mono(M, IF w[n] > 0 THEN 1 ELSE -1, -(((f * M) \div Len(w)) * (n - 1)))
Impulsive(w) == Cardinality({n \in DOMAIN w : w[n] # 0}) = 1
Phase(j, v, c, f) == f * j.off[c] * j.s[v]
\* phase-corrected spectrum of receiver c
Steered(j, v, c, f, x) == Rot(x, Phase(j, v, c, f))
\* sum over receivers before taking the magnitude
BeamSum(j, v, f) ==
  SumR(LAMBDA c : Scale(IF j.weighting = "sqrt" THEN j.off[c] ELSE 1,
                        Steered(j, v, c, f, IF j.weighting = "invamp" THEN Unit(j.M, j.rows[c], f) ELSE DFT(j.M, j.rows[c], f))),
       Len(j.rows), j.M)
Beam(j, v, f) == Abs2(BeamSum(j, v, f))
\* phase shift: twice the trapezoid integral
ShiftSum(j, v, f) ==
  SumR(LAMBDA c : Scale(j.off[c + 1] - j.off[c],
                        Add(Steered(j, v, c, f, Unit(j.M, j.rows[c], f)), Steered(j, v, c + 1, f, Unit(j.M, j.rows[c + 1], f)))),
       Len(j.rows) - 1, j.M)
Shifted(j, v, f) == Abs2(ShiftSum(j, v, f))
\* slant stack: delay of receiver c is Lag \div M samples and a fraction (Lag % M) of one
Lag(j, v, c) == (j.off[c] - j.off[1]) * j.s[v] * j.N
MaxLag(j) == LET all == {Lag(j, v, c) \div j.M : v \in DOMAIN j.s, c \in DOMAIN j.rows} IN CHOOSE x \in all : \A y \in all : y <= x
NTau(j) == j.N - MaxLag(j) - 1
Delayed(j, v, c, t) == LET d == Lag(j, v, c) \div j.M
                           e == Lag(j, v, c) % j.M
                       IN j.rows[c][t + d] * (j.M - e) + j.rows[c][t + d + 1] * e
\* 2*M times the slant stack
Slant(j, v) == TLCEval([t \in 1..j.N |-> IF t > NTau(j) THEN 0
                  ELSE SumTo(LAMBDA c : (j.off[c + 1] - j.off[c]) * (Delayed(j, v, c, t) + Delayed(j, v, c + 1, t)), Len(j.rows) - 1)])
SlantSpec(j, v, f) == DFT(j.M, Slant(j, v), f)

-----------------------------------------------------------------------------
(* P20: a pulse crossing the array at slowness number s0 (N = M: delays are  *)
(* whole samples); its beam is largest at its own velocity.                  *)
PulseRow(p, off, s0, N) == [n \in 1..N |-> LET i == n - off * s0 IN IF i \in DOMAIN p THEN p[i] ELSE 0]
Aliased(off, s, s0, f, M) == \A c \in DOMAIN off : (f * (off[c] - off[1]) * (s - s0)) % M = 0
\* beam power relative to that of one receiver's spectrum
Gain(off, s, s0, f, M) == Abs2(SumR(LAMBDA c : Mono(M, 1, f * off[c] * (s - s0)), Len(off), M))
Recovers(off, ss, s0, f, M) ==
  \A i \in DOMAIN ss : LET g == Re(Gain(off, ss[i], s0, f, M), 100)
                           top == 100 * Len(off) * Len(off)
                       IN IF Aliased(off, ss[i], s0, f, M) THEN RAbs(g - top) <= 2 * Len(off) * Len(off)
                          ELSE g < top
=============================================================================
