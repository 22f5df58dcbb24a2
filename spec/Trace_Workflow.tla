--------------------------- MODULE Trace_Workflow ---------------------------
EXTENDS Workflow, TraceLib
\* e.post is the array delivered, its samples times n * e.den; e.den carries the detrending denominator (and the window's 1000)
SameW(x, y, tol) ==
  /\ Len(x) = Len(y)
  /\ \A c \in DOMAIN x : Len(x[c]) = Len(y[c]) /\ \A i \in DOMAIN x[c] : Abs(x[c][i] - y[c][i]) <= tol
\* the window table is rounded to 1/1000, so a tapered sample is known up to half its own size in that unit
Peak(r) == MaxOf({Abs(r.w[c][i]) : c \in DOMAIN r.w, i \in 1..NSamp(r)})
Tol(cfg) == IF ~cfg.mute.on \/ cfg.mute.win = << >> THEN 1
            ELSE 2 + Peak(Steps(cfg, <<"check", "offsets", "detrend">>, Start(Read(Used(cfg), cfg.mx, cfg.my), NoWin, NoWin)).a.r)
ADiff(cfg, x, y) == (IF SameW(x.r.w, y.r.w, Tol(cfg)) THEN {} ELSE {"samples"})
                    \cup {f \in {"t0", "delay", "n", "dt", "pos", "mult"} : x.r[f] # y.r[f]}
                    \cup {f \in {"src", "sy", "ys"} : x[f] # y[f]}
\* a tapered mute leaves the signal's samples in units of 1/1000
Thousand(cfg, r) == IF cfg.mute.on /\ cfg.mute.win # << >> THEN [r EXCEPT !.w = [c \in DOMAIN r.w |-> [i \in DOMAIN r.w[c] |-> 1000 * r.w[c][i]]]] ELSE r
TheVerdict(i0) ==
  LET e == Trace[i0]
      cfg == e.cfg
      o == Run(cfg)
      ks == KeptBy(NSamp(o.a.r), cfg.g0, cfg.g1, o.a.r.mult)
      sk == KeptBy(NSamp(o.sig), cfg.g0, cfg.g1, o.sig.mult)
  IN CASE e.op.name = "run" ->
       (IF e.op.out \in Outcomes(cfg) THEN {} ELSE {"outcome"})
       \cup (IF e.untouched THEN {} ELSE {"settings, names or files changed"})
       \cup (IF o.out # "ok" \/ e.op.out # "ok" THEN {} ELSE
             ADiff(cfg, o.a, e.post)
             \cup (IF e.ks = ks THEN {} ELSE {"frequencies"})
             \cup (IF e.nvel = cfg.nvel THEN {} ELSE {"velocities"})
             \cup (IF e.n = (IF cfg.wf = "frequency-domain" THEN Len(cfg.files) ELSE 1) THEN {} ELSE {"number of records"})
             \* the image is the mean of the images of the individual files (or that of the delivered array)
             \cup (IF \A p \in DOMAIN e.power : Abs(Len(e.images) * e.power[p] - SumSeq([k \in DOMAIN e.images |-> e.images[k][p]])) <= 2 * Len(e.images)
                   THEN {} ELSE {"power"})
             \cup (IF cfg.wf # "frequency-domain" \/ Len(e.images) = Len(cfg.files) THEN {} ELSE {"images"})
             \cup (IF ~cfg.snr.on THEN (IF e.sk = << >> THEN {} ELSE {"unrequested ratio"})
                   ELSE (IF e.sk = sk THEN {} ELSE {"ratio frequencies"})
                        \cup (IF Len(e.snr) = Len(sk) /\ e.sk = sk /\ (24 % NSamp(o.sig) = 0)
                              THEN (IF \A m \in DOMAIN sk : RatioOK(Thousand(cfg, o.noise), o.sig, sk[m], e.snr[m]) THEN {} ELSE {"ratio"}) ELSE {})))
       [] e.op.name = "snr" ->      \* two windows given directly
            LET p(r) == IF e.pad > 0 THEN Pad(r, e.pad).st ELSE r
                nn == p(e.noise)
                ss == p(e.sig)
                kk == KeptBy(NSamp(ss), e.g0, e.g1, ss.mult)
            IN IF NSamp(nn) # NSamp(ss) THEN (IF e.op.out = "IndexError" THEN {} ELSE {"outcome"})
               ELSE (IF e.op.out = "ok" THEN {} ELSE {"outcome"})
                    \cup (IF e.op.out # "ok" THEN {} ELSE
                          (IF e.sk = kk THEN {} ELSE {"ratio frequencies"})
                          \cup (IF e.sk = kk /\ Len(e.snr) = Len(kk) /\ 24 % NSamp(ss) = 0
                                THEN (IF \A m \in DOMAIN kk : RatioOK(nn, ss, kk[m], e.snr[m]) THEN {} ELSE {"ratio"}) ELSE {}))
=============================================================================
