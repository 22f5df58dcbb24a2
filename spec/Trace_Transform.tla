-------------------------- MODULE Trace_Transform --------------------------
EXTENDS Transform, TraceLib
\* e.power[v][i] is the logged number for velocity v and the i-th kept frequency
Cells(e) == {<<v, i>> : v \in DOMAIN e.job.s, i \in DOMAIN e.ks}
Mod2(x, y) == x * x + y * y
\* unit spectrum in units of 1/100, up to rounding, from the exact squared modulus
CellOK(e, v, i) ==
  LET j == e.job
      f == e.ks[i]
  IN CASE e.op.name \in {"fdbf", "fk"} -> IsRe(e.power[v][i], Beam(j, v, f), e.sc) /\ e.imag[v][i] = 0
       [] e.op.name = "phaseshift" -> IsRe(e.power[v][i], Shifted(j, v, f), e.sc)
       [] e.op.name = "slantstack" -> /\ IsRe(e.power[v][i], SlantSpec(j, v, f), e.sc)
                                      /\ IsIm(e.imag[v][i], SlantSpec(j, v, f), e.sc)
Tabled(e, v, i) ==       \* powers with supplied steering/unit phases: modulus in units of 1/100, or 1/1000 for unit spectra
  LET j == e.job
      f == e.ks[i]
      U(c) == DFT(j.M, j.rows[c], f)
      re(c) == Re(U(c), 10000) \div 100
      im(c) == Im(U(c), 10000) \div 100
      mod(c) == ISqrt(Mod2(re(c), im(c)))
      wt(c) == IF j.weighting = "sqrt" THEN j.off[c] ELSE 1
      ux(c) == IF e.unit THEN (re(c) * 1000) \div mod(c) ELSE re(c) * wt(c)
      uy(c) == IF e.unit THEN (im(c) * 1000) \div mod(c) ELSE im(c) * wt(c)
      \* conj(steering) in units of 1/1000
      cx(c) == e.steer[v][i][c][1]
      cy(c) == -e.steer[v][i][c][2]
      n == Len(j.rows)
      X == IF e.op.name = "phaseshift"
           THEN SumTo(LAMBDA c : (j.off[c+1] - j.off[c]) * (ux(c) * cx(c) - uy(c) * cy(c) + ux(c+1) * cx(c+1) - uy(c+1) * cy(c+1)), n - 1) \div 2000
           ELSE SumTo(LAMBDA c : ux(c) * cx(c) - uy(c) * cy(c), n) \div 1000
      Y == IF e.op.name = "phaseshift"
           THEN SumTo(LAMBDA c : (j.off[c+1] - j.off[c]) * (ux(c) * cy(c) + uy(c) * cx(c) + ux(c+1) * cy(c+1) + uy(c+1) * cx(c+1)), n - 1) \div 2000
           ELSE SumTo(LAMBDA c : ux(c) * cy(c) + uy(c) * cx(c), n) \div 1000
      mag == ISqrt(Mod2(X, Y))
  IN RAbs(e.power[v][i] - mag) <= e.tol
FreqOK(e) == e.ks = Kept(e.job.N, e.job.f0, e.job.f1, e.job.mult)
VelOK(e) == /\ e.vels[1] = e.vmin /\ e.vels[Len(e.vels)] = e.vmax
            /\ IF e.vspace = "linear" THEN LinearOK(e.vels, e.nvel) ELSE LogOK(e.vels, e.nvel)
\* how the largest power grows when all traces are multiplied by c
Degree(name, weighting) == CASE name = "phaseshift" -> 0 [] name = "slantstack" -> 1
                             [] OTHER -> IF weighting = "invamp" /\ name = "fdbf" THEN 0 ELSE 2
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN 1 ELSE x * Power(x, n - 1)
Near(x, y, t) == RAbs(x - y) <= t
MaxRow(q) == LET all == {q[i] : i \in DOMAIN q} IN CHOOSE x \in all : \A y \in all : y <= x
TheVerdict(i) ==
  LET e == Trace[i]
  IN CASE e.op.kind = "power" ->
            (IF e.op.out = "ok" THEN {} ELSE {"outcome"})
            \cup (IF e.op.out # "ok" THEN {} ELSE
                  (IF FreqOK(e) THEN {} ELSE {"frequencies"})
                  \cup (IF e.shape = <<Len(e.job.s), Len(e.ks)>> THEN {} ELSE {"shape"})
                  \cup (IF FreqOK(e) /\ e.shape = <<Len(e.job.s), Len(e.ks)>>
                        THEN (IF \A c \in Cells(e) : CellOK(e, c[1], c[2]) THEN {} ELSE {"power"}) ELSE {})
                  \cup (IF e.untouched THEN {} ELSE {"array or settings changed"}))
       [] e.op.kind = "tabled" ->
            (IF e.op.out = "ok" THEN {} ELSE {"outcome"})
            \cup (IF e.op.out # "ok" THEN {} ELSE
                  (IF FreqOK(e) THEN {} ELSE {"frequencies"})
                  \cup (IF FreqOK(e) THEN (IF \A c \in Cells(e) : Tabled(e, c[1], c[2]) THEN {} ELSE {"power"}) ELSE {})
                  \cup (IF e.untouched THEN {} ELSE {"array or settings changed"}))
       [] e.op.kind = "axes" ->
            (IF e.op.out = "ok" THEN {} ELSE {"outcome"})
            \cup (IF e.op.out # "ok" THEN {} ELSE
                  (IF FreqOK(e) THEN {} ELSE {"frequencies"})
                  \cup (IF VelOK(e) THEN {} ELSE {"velocities"})
                  \cup (IF e.shape = <<e.nvel, Len(e.ks)>> THEN {} ELSE {"shape"}))
       [] e.op.kind = "same" ->      \* the same images up to a known factor
            (IF e.op.out = "ok" THEN {} ELSE {"outcome"})
            \cup (IF e.op.out # "ok" THEN {} ELSE
                  (IF Len(e.p1) = Len(e.p0) /\ \A v \in DOMAIN e.p0 : Len(e.p1[v]) = Len(e.p0[v])
                      /\ \A k \in DOMAIN e.p0[v] : Near(e.p0[v][k], e.p1[v][k], 3) THEN {} ELSE {"power"})
                  \cup (IF \A k \in DOMAIN e.pick1 : \A v \in DOMAIN e.p0 : e.p0[e.pick1[k]][k] >= e.p0[v][k] - 3 THEN {} ELSE {"picks"})
                  \cup (IF e.op.how = "rescaled"      \* by ten to the power e.ten: ml is 1000 lg of the growth
                        THEN (IF Near(e.ml, 1000 * e.ten * Degree(e.op.name, e.weighting), 2) THEN {} ELSE {"scale"})
                        ELSE IF Near(e.m1, 1000 * Power(IF e.c < 0 THEN -e.c ELSE e.c, Degree(e.op.name, e.weighting)), 2 * Power(IF e.c < 0 THEN -e.c ELSE e.c, 2)) THEN {} ELSE {"scale"}))
       [] e.op.kind = "wave" ->
            (IF e.op.out = "ok" THEN {} ELSE {"outcome"})
            \cup (IF e.op.out # "ok" THEN {} ELSE
                  IF \A k \in DOMAIN e.ks : Aliased(e.job.off, e.job.s[e.picks[k]], e.s0, e.ks[k], e.job.M) THEN {} ELSE {"picks"})
=============================================================================
