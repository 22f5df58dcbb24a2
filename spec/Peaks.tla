------------------------------- MODULE Peaks -------------------------------
(* Sets of dispersion peaks and suites of them.                              *)
(* A set m: id; attrs, the stored attributes in order; shape <<rows, cols>>  *)
(* (rows = 0: one peak per sample); data[attr], one integer per peak in      *)
(* quarters (Nan: missing), row after row; valid, one 0/1 per peak.          *)
(* Derived attributes are exact rationals <<numerator, denominator>>.        *)
EXTENDS Integers, Sequences, FiniteSets
Nan == -999999999
None == <<0, 0>>
Derived == {"slowness", "wavelength", "wavenumber"}
N(m) == Len(m.valid)
Lacks(m, attr, i) == CASE attr = "slowness"   -> m.data["velocity"][i] = Nan
                       [] attr \in {"wavelength", "wavenumber"} -> m.data["velocity"][i] = Nan \/ m.data["frequency"][i] = Nan
                       [] OTHER -> m.data[attr][i] = Nan
\* wavenumber without its factor 2 pi
Rat(m, attr, i) == CASE attr = "slowness"   -> <<4, m.data["velocity"][i]>>
                     [] attr = "wavelength" -> <<m.data["velocity"][i], m.data["frequency"][i]>>
                     [] attr = "wavenumber" -> <<m.data["frequency"][i], m.data["velocity"][i]>>
                     [] OTHER -> <<m.data[attr][i], 4>>
Gt(a, b) == a[1] * b[2] > b[1] * a[2]
Lo(p) == IF Gt(p[1], p[2]) THEN p[2] ELSE p[1]
Hi(p) == IF Gt(p[1], p[2]) THEN p[1] ELSE p[2]
\* a set holding these values: peaks without a velocity are not peaks
Fresh(m) == [m EXCEPT !.valid = [i \in 1..Len(m.data["velocity"]) |-> IF m.data["velocity"][i] = Nan THEN 0 ELSE 1]]
Valids(m) == {i \in 1..N(m) : m.valid[i] = 1}
Outside(m, attr, lo, up) ==
  {i \in Valids(m) : /\ ~Lacks(m, attr, i)
                     /\ \/ up # None /\ Gt(Rat(m, attr, i), up)
                        \/ lo # None /\ Gt(lo, Rat(m, attr, i))}
Inside(m, xt, xl, yt, yl) ==
  {i \in Valids(m) : /\ ~Lacks(m, xt, i) /\ ~Lacks(m, yt, i)
                     /\ Gt(Rat(m, xt, i), Lo(xl)) /\ Gt(Hi(xl), Rat(m, xt, i))
                     /\ Gt(Rat(m, yt, i), Lo(yl)) /\ Gt(Hi(yl), Rat(m, yt, i))}
Without(m, bad) == [m EXCEPT !.valid = [i \in 1..N(m) |-> IF i \in bad THEN 0 ELSE m.valid[i]]]
RejectOut(m, attr, lo, up) == Without(m, Outside(m, attr, lo, up))
RejectBox(m, xt, xl, yt, yl) == Without(m, Inside(m, xt, xl, yt, yl))
Rejected(m, o) == IF o.name = "out" THEN RejectOut(m, o.attr, o.lims[1], o.lims[2])
                  ELSE RejectBox(m, o.xt, o.xl, o.yt, o.yl)
Each(s, o) == [j \in 1..Len(s) |-> Rejected(s[j], o)]
One(s, o) == [s EXCEPT ![o.m] = Rejected(s[o.m], o)]
Apply(s, o) == IF o.m = 0 THEN Each(s, o) ELSE One(s, o)

\* the valid peaks' positions in order
RECURSIVE Order(_, _)
Order(m, i) == IF i > N(m) THEN << >> ELSE (IF m.valid[i] = 1 THEN <<i>> ELSE << >>) \o Order(m, i + 1)
Extended(m) == {m.attrs[i] : i \in 1..Len(m.attrs)} \cup Derived
\* the value x, in units of 1/S, agrees with rational r
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, r, S) == x # Nan /\ Abs(x * r[2] - r[1] * S) <= Abs(r[2])

\* P21 as theorems of the operators
Permanent(s, t) == \A j \in 1..Len(s) : Valids(t[j]) \subseteq Valids(s[j]) /\ t[j].data = s[j].data
=============================================================================
