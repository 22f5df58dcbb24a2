------------------------------ MODULE Workflow ------------------------------
(* Masw.run as a sequence of steps on the array read from the shot files.    *)
(* Times are quarter steps again; lengths stay 1/10000 m.  Samples carry a   *)
(* common denominator: after detrending, w is Den(N) times the sample sum.   *)
(* A configuration is                                                        *)
(*   [wf, files, mx, my, lo, hi,                     workflow, input, offsets *)
(*    trim |-> [on, a, b], mute |-> [on, ok, sl, el, win], pad |-> [on, n],   *)
(*    snr |-> [on, na, nb, sa, sb, pad, n], tf]                               *)
(* win is << >> for a rectangular window, otherwise a table: win[len+1][i] is *)
(* 1000 times the i-th weight of a window of len samples.                    *)
EXTENDS Files, Transform

-----------------------------------------------------------------------------
\* Least-squares line removed, exactly: u is the centred (doubled) sample number.
Cent(n, i) == 2 * i - n - 1
SumU2(n) == SumSeq([i \in 1..n |-> Cent(n, i) * Cent(n, i)])
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Den(n) == (n * SumU2(n)) \div GCD(n, SumU2(n))
DetrendSeq(w) ==
  LET n == Len(w)
      d == Den(n)
      s0 == SumSeq(w)
      s1 == SumSeq([i \in 1..n |-> Cent(n, i) * w[i]])
  IN TLCEval([i \in 1..n |-> d * w[i] - (d \div n) * s0 - (d \div SumU2(n)) * Cent(n, i) * s1])
Detrend(a) == [a EXCEPT !.r.w = TLCEval([c \in DOMAIN a.r.w |-> DetrendSeq(a.r.w[c])])]
\* P12: what is removed is a straight line, and nothing linear remains
DetrendExact(w) ==
  LET z == DetrendSeq(w)
      n == Len(w)
      line == [i \in 1..n |-> Den(n) * w[i] - z[i]]
  IN /\ SumSeq(z) = 0 /\ SumSeq([i \in 1..n |-> Cent(n, i) * z[i]]) = 0
     /\ \A i \in 2..(n - 1) : line[i + 1] - line[i] = line[i] - line[i - 1]
     /\ DetrendSeq(z) = [i \in 1..n |-> Den(n) * z[i]]

-----------------------------------------------------------------------------
\* files give microseconds; a workflow counts quarter steps
InQuarters(a) == [a EXCEPT !.r.t0 = (4 * @) \div a.r.dt, !.r.delay = (4 * @) \div a.r.dt]
Taper(a, sl, el, win) ==
  [a EXCEPT !.r.w = TLCEval([c \in DOMAIN a.r.w |->
      LET b == Lo(a.r, sl, a.r.pos[c])
          e == Hi(a.r, el, a.r.pos[c])
      IN TLCEval([i \in DOMAIN a.r.w[c] |-> IF i > b /\ i <= e THEN a.r.w[c][i] * win[e - b + 1][i - b] ELSE 0])])]

\* The state of a run: array, noise and signal windows, outcome.
NoWin == None
Fail(s, e) == [s EXCEPT !.out = e]
TrimA(a, x, y) == LET t == Trim(a.r, x, y) IN [out |-> t.out, a |-> [a EXCEPT !.r = t.st]]
Step(cfg, name, s) ==
  IF s.out # "ok" THEN s ELSE
  CASE name = "check" -> IF Inside(s.a) THEN Fail(s, "ValueError") ELSE s
    [] name = "offsets" -> LET t == Select(s.a, cfg.lo, cfg.hi) IN [s EXCEPT !.out = t.out,
                                      !.a = [t.st EXCEPT !.ys = [j \in DOMAIN t.st.r.pos |-> s.a.ys[CHOOSE i \in DOMAIN s.a.r.pos : s.a.r.pos[i] = t.st.r.pos[j]]]]]
    [] name = "detrend" -> [s EXCEPT !.a = Detrend(s.a)]
    [] name = "noise" -> IF ~cfg.snr.on \/ s.noise # NoWin THEN s
                         ELSE LET t == Trim(s.a.r, cfg.snr.na, cfg.snr.nb)
                              IN IF t.out # "ok" THEN Fail(s, t.out) ELSE [s EXCEPT !.noise = t.st]
    [] name = "trim" -> IF ~cfg.trim.on THEN s
                        ELSE LET t == Trim(s.a.r, cfg.trim.a, cfg.trim.b) IN [s EXCEPT !.a.r = t.st, !.out = t.out]
    [] name = "mute" -> IF ~cfg.mute.on THEN s
                        ELSE IF ~cfg.mute.ok THEN Fail(s, "KeyError")
                        ELSE [s EXCEPT !.a = IF cfg.mute.win = << >> THEN MuteBox(s.a, cfg.mute.sl, cfg.mute.el)
                                             ELSE Taper(s.a, cfg.mute.sl, cfg.mute.el, cfg.mute.win)]
    [] name = "signal" -> IF ~cfg.snr.on \/ s.sig # NoWin THEN s
                          ELSE LET t == Trim(s.a.r, cfg.snr.sa, cfg.snr.sb)
                               IN IF t.out # "ok" THEN Fail(s, t.out) ELSE [s EXCEPT !.sig = t.st]
    [] name = "snr" -> IF ~cfg.snr.on THEN s
                       ELSE LET p(r) == IF cfg.snr.pad THEN Pad(r, cfg.snr.n).st ELSE r
                            IN IF NSamp(p(s.noise)) # NSamp(p(s.sig)) THEN Fail(s, "IndexError")
                               ELSE [s EXCEPT !.noise = p(@), !.sig = p(@)]
    [] name = "xcorr" -> [s EXCEPT !.a = XCorr(s.a, cfg.sigw, cfg.vmin, cfg.vmax, s.a.r.dt)]
    [] name = "pad" -> IF ~cfg.pad.on THEN s ELSE [s EXCEPT !.a.r = Pad(s.a.r, cfg.pad.n).st]

TimeSteps == <<"check", "offsets", "detrend", "noise", "trim", "mute", "signal", "snr", "pad">>
FreqSteps == <<"check", "offsets", "detrend", "noise", "trim", "mute", "signal", "pad">>
XcorrSteps == <<"check", "offsets", "detrend", "noise", "trim", "mute", "signal", "snr", "xcorr", "pad">>
RECURSIVE Steps(_, _, _)
Steps(cfg, names, s) == IF names = << >> THEN s ELSE Steps(cfg, Tail(names), Step(cfg, Head(names), s))

Start(o, noise, sig) == [a |-> IF o.out = "ok" THEN InQuarters(o.a) ELSE o.a, noise |-> noise, sig |-> sig, out |-> o.out]
Workflows == {"single", "time-domain", "frequency-domain", "time-domain-xcorr"}
Used(cfg) == IF cfg.wf = "single" THEN SubSeq(cfg.files, 1, 1) ELSE cfg.files

\* the time-domain workflows; images is the number of records the image stands for
RunTime(cfg) ==
  LET s == Steps(cfg, TimeSteps, Start(Read(Used(cfg), cfg.mx, cfg.my), NoWin, NoWin))
  IN [s EXCEPT !.out = IF @ = "ok" /\ ~cfg.tf THEN "KeyError" ELSE @]

\* frequency domain: every file on its own, all alike; the windows come from the first.
One(cfg, f, noise, sig) == Steps(cfg, FreqSteps, Start(Read(<<f>>, cfg.mx, cfg.my), noise, sig))
PerFile(cfg) == [k \in DOMAIN cfg.files |-> One(cfg, cfg.files[k], NoWin, NoWin)]
Alike(cfg) == \A k \in DOMAIN cfg.files :
                LET x == Read(<<cfg.files[1]>>, cfg.mx, cfg.my)
                    y == Read(<<cfg.files[k]>>, cfg.mx, cfg.my)
                IN x.out = "ok" /\ y.out = "ok" => (x.a.src = y.a.src /\ x.a.sy = y.a.sy /\ Len(x.a.r.pos) = Len(y.a.r.pos))
\* the frequencies of a file's image, each <<index, duration>>, and whether all files have those of the first
NearIdx(n, g) == LET k == (2 * g * n + 999) \div 2000 IN IF k > n - 1 THEN n - 1 ELSE k
KeptBy(n, g0, g1, mult) == KeptSeq(NearIdx(n, g0), NearIdx(n, g1), mult)
FreqAxis(cfg, r) ==
  LET n == NSamp(r)
      per(g) == (g * r.dt) \div cfg.files[1].tr[1].dt      \* the limits are given in cycles per sample of the first file
      ks == KeptBy(n, per(cfg.g0), per(cfg.g1), r.mult)
  IN [i \in DOMAIN ks |-> <<ks[i], n * r.dt>>]
SameAxis(x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : x[i][1] * y[i][2] = y[i][1] * x[i][2]
Comparable(cfg, p) == \A k \in DOMAIN p : p[k].out = "ok" => SameAxis(FreqAxis(cfg, p[1].a.r), FreqAxis(cfg, p[k].a.r))
FreqErrors(cfg) ==
  LET p == PerFile(cfg)
      w == Step(cfg, "snr", [p[1] EXCEPT !.out = "ok"])
  IN ({p[k].out : k \in DOMAIN p} \ {"ok"})
     \cup (IF Alike(cfg) /\ (p[1].out = "ok" => Comparable(cfg, p)) THEN {} ELSE {"ValueError"})
     \cup (IF cfg.tf THEN {} ELSE {"KeyError"})
     \cup (LET x == Start(Read(<<cfg.files[1]>>, cfg.mx, cfg.my), NoWin, NoWin)      \* trimming may be refused before the source is looked at
           IN IF x.out = "ok" /\ cfg.trim.on THEN {Trim(x.a.r, cfg.trim.a, cfg.trim.b).out} \ {"ok"} ELSE {})
     \cup (IF p[1].out = "ok" THEN ({w.out} \ {"ok"}) ELSE {})
RunFreq(cfg) ==
  LET p == PerFile(cfg)
      last == p[Len(p)]
      e == FreqErrors(cfg)
      w == Step(cfg, "snr", p[1])
  IN [a |-> last.a, noise |-> w.noise, sig |-> w.sig, out |-> IF e = {} THEN "ok" ELSE CHOOSE x \in e : TRUE]

\* correlation with the averaged source signal: the record first starts at time zero
RunXcorr(cfg) ==
  LET o == Read(cfg.files, cfg.mx, cfg.my)
      s0 == Start(o, NoWin, NoWin)
      t == TrimA(s0.a, 0, LastTime(s0.a.r))
      s == Steps(cfg, XcorrSteps, IF s0.out # "ok" THEN s0 ELSE [s0 EXCEPT !.a = t.a, !.out = t.out])
  IN [s EXCEPT !.out = IF @ = "ok" /\ ~cfg.tf THEN "KeyError" ELSE @]

Run(cfg) == CASE cfg.wf \in {"single", "time-domain"} -> RunTime(cfg)
              [] cfg.wf = "frequency-domain" -> RunFreq(cfg)
              [] cfg.wf = "time-domain-xcorr" -> RunXcorr(cfg)
              [] OTHER -> [a |-> NoArray, noise |-> NoWin, sig |-> NoWin, out |-> "KeyError"]
\* the outcomes allowed (a frequency-domain run may meet several errors; which one it reports first is not fixed)
Outcomes(cfg) == IF cfg.wf = "frequency-domain" /\ FreqErrors(cfg) # {} THEN FreqErrors(cfg) ELSE {Run(cfg).out}

-----------------------------------------------------------------------------
(* P14: signal to noise.  g/1000 cycles per sample is a frequency limit.     *)
L1Seq(w) == SumSeq([i \in DOMAIN w |-> Abs(w[i])])
\* records brought to a common size of at most 20000 (sum of magnitudes)
Largest(noise, sig) == MaxOf({1} \cup {L1Seq(noise.w[c]) : c \in DOMAIN noise.w} \cup {L1Seq(sig.w[c]) : c \in DOMAIN sig.w})
Sized(w, top) == IF top > 20000 THEN TLCEval([i \in DOMAIN w |-> w[i] \div (top \div 20000 + 1)])
                 ELSE TLCEval([i \in DOMAIN w |-> w[i] * (20000 \div top)])
\* modulus of a spectral value
Mag(w, f) == LET n == Len(w)
                 re == SumSeq([i \in 1..n |-> w[i] * C(n, f * (i - 1))]) \div 10000
                 im == SumSeq([i \in 1..n |-> w[i] * S(n, f * (i - 1))]) \div 10000
             IN ISqrt(re * re + im * im)
SumMag(r, f, top) == SumSeq([c \in DOMAIN r.w |-> Mag(Sized(r.w[c], top), f)])
\* r is 100 times the reported ratio at index f (10000 or more is reported as is when huge)
RatioOK(noise, sig, f, r) ==
  LET top == Largest(noise, sig)
      n == SumMag(noise, f, top)
      s == SumMag(sig, f, top)
      k == Len(noise.w) * 16          \* rounding of the table and of the records
  IN \/ n < 130 * Len(noise.w)        \* a noise spectrum near zero: the ratio is not meaningful
     \/ IF r > 10000 THEN 100 * s + 100 * k >= 9000 * n
        ELSE Abs(r * n - 100 * s) <= 100 * k + r * k + n

-----------------------------------------------------------------------------
(* Properties of the model, checked on every configuration. *)
Off(cfg, what) == [cfg EXCEPT ![what].on = FALSE]
\* P12: a disabled step's values do not matter; enabled ones act in the stated order
SnrHarmless(cfg) == LET x == Run(cfg) IN x.out = "ok" /\ cfg.snr.on => LET y == Run(Off(cfg, "snr")) IN y.out = "ok" /\ y.a = x.a
\* P14: the noise window is that of the detrended record, whatever is trimmed and muted later
NoiseEarly(cfg) == LET x == Run(cfg)
                       y == Run(Off(Off(Off(cfg, "trim"), "mute"), "pad"))
                   IN x.out = "ok" /\ y.out = "ok" => x.noise = y.noise
SingleIsFirst(cfg) == cfg.wf = "single" => Run(cfg) = RunTime([cfg EXCEPT !.files = SubSeq(@, 1, 1), !.wf = "time-domain"])
FreqOfOne(cfg) == (cfg.wf = "frequency-domain" /\ Len(cfg.files) = 1) =>
                    LET x == Run(cfg)
                        y == RunTime(cfg)
                    IN x.out = "ok" => x.a = y.a
=============================================================================
