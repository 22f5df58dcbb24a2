------------------------------- MODULE Limits -------------------------------
(* Array resolution limits.  Numbers are fractions <<n, d>>, d > 0;          *)
(* wavenumbers are counted in units of 2*pi.                                 *)
EXTENDS Integers, Sequences
Eq(a, b) == a[1] * b[2] = b[1] * a[2]
Inv(a) == <<a[2], a[1]>>
Mul(a, b) == <<a[1] * b[1], a[2] * b[2]>>
XTypes == {"frequency", "wavelength"}
YTypes == {"velocity", "slowness", "wavenumber"}
Attrs == {"wavelength", "wavenumber"}
Supported(xt, attr, yt) == /\ xt \in XTypes /\ attr \in Attrs
                           /\ yt \in (IF xt = "frequency" THEN YTypes ELSE {"velocity", "slowness"})
\* where a wave of frequency f and wavelength w is drawn
X(xt, f, w) == IF xt = "frequency" THEN f ELSE w
Y(yt, f, w) == CASE yt = "velocity" -> Mul(f, w) [] yt = "slowness" -> Inv(Mul(f, w)) [] OTHER -> Inv(w)
\* the wavelength of whatever is drawn at (x, y)
Wavelength(xt, yt, x, y) == IF xt = "wavelength" THEN x
                            ELSE CASE yt = "velocity" -> Mul(y, Inv(x)) [] yt = "slowness" -> Inv(Mul(x, y)) [] OTHER -> Inv(y)
LimitWavelength(attr, lim) == IF attr = "wavelength" THEN lim ELSE Inv(lim)
OnLimit(xt, attr, yt, lim, x, y) == Eq(Wavelength(xt, yt, x, y), LimitWavelength(attr, lim))
\* the curve of a limit along the given coordinates
Curve(xt, attr, yt, lim, xs, ys) ==
  LET w == LimitWavelength(attr, lim)
  IN IF xt = "frequency" THEN [j \in 1..Len(xs) |-> <<xs[j], Y(yt, xs[j], w)>>]
     ELSE [j \in 1..Len(ys) |-> <<w, ys[j]>>]
Do(xt, attr, yt, lims, xs, ys) == IF Supported(xt, attr, yt)
  THEN [out |-> "ok", curves |-> <<Curve(xt, attr, yt, lims[1], xs, ys), Curve(xt, attr, yt, lims[2], xs, ys)>>]
  ELSE [out |-> "NotImplementedError", curves |-> << >>]
\* a drawn curve is the wanted one: same number of points, equal as fractions
Same(c, w) == Len(c) = Len(w) /\ \A j \in 1..Len(c) : Eq(c[j][1], w[j][1]) /\ Eq(c[j][2], w[j][2])
=============================================================================
