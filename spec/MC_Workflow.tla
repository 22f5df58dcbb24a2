---------------------------- MODULE MC_Workflow ----------------------------
(* Every combination of enabled steps, for small files, step by step.        *)
EXTENDS Workflow, Json
CONSTANTS Wfs, Snrs
VARIABLES cfg, s, pc, k, op

W4(x, j) == [i \in 1..4 |-> ((7 * i * i + 3 * j + x) % 9) - 3 + i]
F(sx, xs, j, st, len) ==
  [fmt |-> "SU", scal |-> -10, units |-> 1, sx |-> sx, sy |-> 0,
   tr |-> [i \in DOMAIN xs |-> [x |-> xs[i], y |-> 0, st |-> st, delay |-> -125, dt |-> 15625,
                                w |-> IF len = 4 THEN W4(xs[i], j + i) ELSE W4(xs[i], j) \o SubSeq(<<2, 5, -1, 0, 3, 1>>, 1, len - 4)]]]
Xs == <<40, 20, 60>>
Xs4 == <<40, 20, 80, 60>>
FileLists == {<<F(-10, Xs, 0, 1, 10)>>, <<F(90, Xs, 1, 1, 10), F(90, <<60, 20, 40>>, 2, 2, 10)>>,
              <<F(30, Xs, 0, 1, 10)>>, <<F(20, Xs4, 1, 1, 10)>>, <<F(80, Xs4, 1, 1, 10), F(80, Xs4, 2, 1, 10), F(80, Xs4, 1, 1, 10)>>, <<F(-10, Xs, 3, 1, 10), F(-20, Xs, 4, 1, 10)>>,
              <<F(-10, Xs, 3, 1, 10), F(-10, <<20, 40>>, 4, 1, 10)>>, <<F(-10, Xs, 3, 1, 10), F(-10, Xs, 4, 1, 9)>>}
\* the record is sampled at -32, -28, ..., 4 quarter steps
Trims == {[on |-> FALSE, a |-> -32, b |-> 4], [on |-> TRUE, a |-> -20, b |-> 0], [on |-> TRUE, a |-> -31, b |-> 8]}
Mutes == {[on |-> FALSE, ok |-> TRUE, sl |-> <<0, -16, 10000, -16>>, el |-> <<0, 0, 10000, 0>>, win |-> << >>],
          [on |-> TRUE, ok |-> TRUE, sl |-> <<0, -18, 10000, -17>>, el |-> <<0, -2, 10000, -3>>, win |-> << >>],
          [on |-> TRUE, ok |-> FALSE, sl |-> <<0, -16, 10000, -16>>, el |-> <<0, 0, 10000, 0>>, win |-> << >>]}
Pads == {[on |-> FALSE, n |-> 7], [on |-> TRUE, n |-> 4], [on |-> TRUE, n |-> 13]}
SnrSet == {[on |-> FALSE, na |-> -30, nb |-> -20, sa |-> -18, sb |-> -2, pad |-> FALSE, n |-> 4],
           [on |-> TRUE, na |-> -32, nb |-> -20, sa |-> -16, sb |-> -4, pad |-> FALSE, n |-> 4],
           [on |-> TRUE, na |-> -32, nb |-> -20, sa |-> -16, sb |-> -12, pad |-> FALSE, n |-> 4],
           [on |-> TRUE, na |-> -32, nb |-> -20, sa |-> -16, sb |-> -8, pad |-> TRUE, n |-> 4],
           [on |-> TRUE, na |-> -32, nb |-> -12, sa |-> -16, sb |-> 0, pad |-> TRUE, n |-> 2]}
Offs == {<<0, 1000000>>, <<35000, 1000000>>, <<900000, 1000000>>}
Cfgs == {[wf |-> wf, files |-> fs, mx |-> Id, my |-> Id, lo |-> o[1], hi |-> o[2], trim |-> t, mute |-> m, pad |-> p, snr |-> n, tf |-> tf, g0 |-> 20, g1 |-> 480] :
           wf \in Wfs, fs \in FileLists, o \in Offs, t \in Trims, m \in Mutes, p \in Pads, n \in {x \in SnrSet : x.on \in Snrs}, tf \in {TRUE}}
        \cup {[wf |-> wf, files |-> <<F(-10, Xs, 0, 1, 10)>>, mx |-> [a |-> -1, b |-> 50000], my |-> Id, lo |-> 0, hi |-> 1000000,
               trim |-> t, mute |-> CHOOSE m \in Mutes : ~m.on, pad |-> p, snr |-> CHOOSE n \in SnrSet : ~n.on, tf |-> tf, g0 |-> 20, g1 |-> 480] :
                 wf \in Wfs \cup {"nosuch"}, t \in Trims, p \in Pads, tf \in BOOLEAN}

Names(c) == IF c.wf = "frequency-domain" THEN FreqSteps ELSE TimeSteps
Last(c) == IF c.wf = "frequency-domain" THEN Len(c.files) ELSE 1
\* pc is <<file, step>>; step 0 reads, the last one delivers
Init == /\ cfg \in Cfgs /\ pc = <<1, 0>> /\ k = 0 /\ op = [name |-> "init"]
        /\ s = [a |-> NoArray, noise |-> NoWin, sig |-> NoWin, out |-> "ok"]
ReadFile == /\ pc[2] = 0 /\ k = 0 /\ cfg.wf # "nosuch"
            /\ s' = LET o == IF cfg.wf = "frequency-domain" THEN Read(<<cfg.files[pc[1]]>>, cfg.mx, cfg.my) ELSE Read(Used(cfg), cfg.mx, cfg.my)
                    IN IF s.out # "ok" THEN s ELSE Start(o, s.noise, s.sig)
            /\ pc' = <<pc[1], 1>> /\ op' = [name |-> "readfile"] /\ UNCHANGED <<cfg, k>>
DoOne == /\ pc[2] > 0 /\ pc[2] <= Len(Names(cfg)) /\ k = 0
         /\ s' = Step(cfg, Names(cfg)[pc[2]], s)
         /\ pc' = IF pc[2] = Len(Names(cfg)) /\ pc[1] < Last(cfg) THEN <<pc[1] + 1, 0>> ELSE <<pc[1], pc[2] + 1>>
         /\ op' = [name |-> Names(cfg)[pc[2]]] /\ UNCHANGED <<cfg, k>>
Deliver == /\ k = 0 /\ (pc[2] > Len(Names(cfg)) \/ cfg.wf = "nosuch")
           /\ k' = 1 /\ UNCHANGED <<cfg, s, pc>>
           /\ op' = [name |-> "run", cfg |-> cfg, outs |-> Outcomes(cfg)]
Next == ReadFile \/ DoOne \/ Deliver
Spec == Init /\ [][Next]_<<cfg, s, pc, k, op>>
View == <<cfg, s, pc, k>>
Emit == op'.name = "run" => PrintT(<<"E", ToJson([p |-> [k |-> 0], o |-> op', q |-> [k |-> 1, x |-> Run(cfg)]])>>)
\* the small steps and the definition of Run agree
InvRun == k = 1 => /\ (Outcomes(cfg) = {"ok"}) => (Run(cfg).a = s.a /\ s.out = "ok")
                   /\ cfg.wf # "frequency-domain" /\ cfg.wf # "nosuch" /\ cfg.tf => Run(cfg) = s
InvProps == (k = 1 /\ cfg.wf # "nosuch") => SnrHarmless(cfg) /\ NoiseEarly(cfg) /\ SingleIsFirst(cfg) /\ FreqOfOne(cfg)
InvDetrend == (k = 0 /\ pc = <<1, 3>> /\ s.out = "ok") => \A c \in DOMAIN s.a.r.w : DetrendExact(s.a.r.w[c])
\* only the named step touches what it names
PropFrame == [][/\ (op'.name \in {"noise", "signal", "snr", "check"} => s'.a = s.a)
                /\ (op'.name \notin {"noise", "snr"} => s'.noise = s.noise)
                /\ (op'.name \notin {"signal", "snr"} => s'.sig = s.sig)
                /\ (s.out # "ok" => s'.out = s.out)]_<<cfg, s, pc, k, op>>
=============================================================================
