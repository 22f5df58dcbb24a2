-------------------------------- MODULE Plot --------------------------------
(* What drawings show.  A drawn line is a bag of points with a colour and a  *)
(* name in the legend; a pair of axes is a sequence of lines.                *)
EXTENDS Array
Undef == -999999999     \* not-a-number

-----------------------------------------------------------------------------
(* Peak sets: [id, cells, valid]; a cell is <<f, v>>, f in Hz, v in 100 m/s. *)
(* Units chosen so that every attribute is whole:                            *)
(*   wavelength 1/12, slowness 1/2520, wavenumber 1/2520 of 2*pi (v in 100). *)
Kinds == {"frequency", "velocity", "wavelength", "slowness", "wavenumber"}
Val(c, kind) == LET f == c[1]  v == c[2]
  IN CASE kind = "frequency" -> f
       [] v = Undef -> Undef
       [] kind = "velocity" -> v
       [] kind = "slowness" -> 2520 \div v
       [] f = Undef -> Undef
       [] kind = "wavelength" -> (12 * v) \div f
       [] kind = "wavenumber" -> (2520 * f) \div v
Selected(m, mask) == {i \in DOMAIN m.cells : (IF mask = << >> THEN m.valid ELSE mask)[i] = 1}
Pts(m, xt, yt, mask) == LET P(i) == <<Val(m.cells[i], xt), Val(m.cells[i], yt)>>
                            S == Selected(m, mask)
                        IN {<<P(i)[1], P(i)[2], Cardinality({j \in S : P(j) = P(i)})>> : i \in S}
\* what a pair of axes says it shows (spaces and capitals aside)
Title(kind) == CASE kind = "frequency" -> "frequency(hz)" [] kind = "wavelength" -> "wavelength(m)" [] kind = "velocity" -> "velocity(m/s)"
                 [] kind = "slowness" -> "slowness(s/m)" [] OTHER -> ""
Titles(xts, yts) == [a \in DOMAIN xts |-> <<Title(xts[a]), Title(yts[a])>>]
Names(ax) == {ax[i].name : i \in DOMAIN ax} \ {""}
\* style: [form |-> "default"] or "each" (one value per member) or "all"; names likewise, "" asks for none
Pick(st, m, dflt) == CASE st.form = "default" -> dflt [] st.form = "all" -> st.v[1] [] st.form = "each" -> st.v[m]
\* a name asked for appears in a legend once, whoever draws under it
NameOf(ax, sty, m, id) == LET n == Pick(sty.name, m, id)
                          IN IF m > 1 /\ sty.name.form # "default" /\ n \in Names(ax) THEN "" ELSE n
Line(ax, suite, m, xt, yt, sty, mask) == [pts |-> Pts(suite[m], xt, yt, mask), color |-> Pick(sty.color, m, "b"),
                                          marker |-> Pick(sty.marker, m, "o"), name |-> NameOf(ax, sty, m, suite[m].id)]
RECURSIVE Draw(_, _, _, _, _, _, _)
Draw(ax, suite, m, xt, yt, sty, masks) ==
  IF m > Len(suite) THEN ax
  ELSE Draw(Append(ax, Line(ax, suite, m, xt, yt, sty, IF masks = << >> THEN << >> ELSE masks[m])), suite, m + 1, xt, yt, sty, masks)
\* given: the axes to draw on, << >> to have them made
DrawSuite(given, suite, xts, yts, sty, masks) ==
  IF Len(xts) # Len(yts) \/ (masks # << >> /\ Len(masks) # Len(suite)) \/ (given # << >> /\ Len(given) # Len(xts))
  THEN [out |-> "IndexError", axes |-> given]
  ELSE [out |-> "ok", axes |-> [a \in DOMAIN xts |-> Draw(IF given = << >> THEN << >> ELSE given[a], suite, 1, xts[a], yts[a], sty, masks)]]

\* theorems: nothing hidden is shown, nothing shown is lost, old lines stay
RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[3] + SumSet(S \ {x})
DrawsExactly(before, suite, xts, yts, sty, masks) ==
  LET d == DrawSuite(before, suite, xts, yts, sty, masks)
  IN d.out = "ok" => \A a \in DOMAIN xts :
       LET b == IF before = << >> THEN << >> ELSE before[a]  g == d.axes[a]
       IN /\ Len(g) = Len(b) + Len(suite) /\ SubSeq(g, 1, Len(b)) = b
          /\ \A m \in DOMAIN suite :
               LET line == g[Len(b) + m]  k == IF masks = << >> THEN << >> ELSE masks[m]
               IN /\ SumSet(line.pts) = Cardinality(Selected(suite[m], k))
                  /\ \A i \in Selected(suite[m], k) : \E p \in line.pts : p[1] = Val(suite[m].cells[i], xts[a]) /\ p[2] = Val(suite[m].cells[i], yts[a])
          /\ (sty.name.form # "default" /\ b = << >> =>
                \A x, y \in DOMAIN g : x # y /\ g[x].name = g[y].name => g[x].name = "")

-----------------------------------------------------------------------------
(* Waterfall of an array: scale <<s, d>> is the length drawn for amplitude   *)
(* one, in position units; <<0, 0>> stands for half the average spacing.     *)
FallScale(a, scale) == LET np == Len(a.r.pos) IN IF scale[2] = 0 THEN <<a.r.pos[np] - a.r.pos[1], 2 * (np - 1)>> ELSE scale
FallPos(a, shift) == IF shift THEN Views(a).norm ELSE a.r.pos
FallDen(a, det, norm, c) == LET rows == Rows(a.r, det)
                            IN CASE norm = "none" -> Factor(a.r, det) [] norm = "each" -> MaxAbs(rows[c])
                                 [] norm = "all" -> MaxOf({MaxAbs(rows[i]) : i \in DOMAIN rows})
\* x is K times the drawn coordinate of sample i of trace c
OnTrace(a, op, c, i, x, K) ==
  LET row == Rows(a.r, op.detrend)[c]
      d == FallDen(a, op.detrend, op.norm, c)
      s == FallScale(a, op.scale)
      dev == x * d * s[2] - K * (FallPos(a, op.shift)[c] * d * s[2] + row[i] * s[1])
  IN dev <= d * s[2] /\ dev >= -(d * s[2])
=============================================================================
