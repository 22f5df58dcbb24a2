------------------------------ MODULE Equality ------------------------------
(* When records, sensors, sources, arrays, peak sets and suites are equal.   *)
(* An object: kind "ts", "s1c", "array", "source", "peaks", "suite" or       *)
(* "other" (not of this library); w, n, t0, dt, pos as in TimeSeries; src    *)
(* the source's position; sets the peak sets, each [id, attrs, data, valid]. *)
(* What does not apply is empty or zero.  nano = 1: samples and the further  *)
(* attributes of peaks are counted in 1e-9, and agree when they differ by no *)
(* more than 1e-8 plus 1e-5 of their size; otherwise in ones, and agree when *)
(* they are the same.                                                        *)
EXTENDS Integers, Sequences
Undefined == -999999999
Magnitude(x) == IF x < 0 THEN -x ELSE x
Close(x, y) == IF x = Undefined \/ y = Undefined THEN x = y ELSE Magnitude(x - y) <= 10 + Magnitude(y) \div 100000
Agree(nano, v, w) == IF nano = 1 THEN Len(v) = Len(w) /\ \A i \in DOMAIN v : Close(v[i], w[i]) ELSE v = w
Fields == {"kind", "nano", "n", "t0", "dt", "pos", "src"}
Library == {"ts", "s1c", "array", "source", "peaks", "suite"}
RECURSIVE Shown(_, _, _)
Shown(v, valid, i) == IF i > Len(v) THEN << >> ELSE (IF valid[i] = 1 THEN <<v[i]>> ELSE << >>) \o Shown(v, valid, i + 1)
Attrs(s) == {s.attrs[i] : i \in DOMAIN s.attrs}
\* a rejected peak's values and the order in which attributes were given do not matter
SameSet(s, t, nano) == /\ s.id = t.id /\ Attrs(s) = Attrs(t)
                 /\ \A x \in Attrs(s) : Agree(IF x \in {"frequency", "velocity"} THEN 0 ELSE nano, Shown(s.data[x], s.valid, 1), Shown(t.data[x], t.valid, 1))
Equal(a, b) == /\ a.kind \in Library /\ \A f \in Fields : a[f] = b[f]
               /\ Len(a.w) = Len(b.w) /\ \A i \in DOMAIN a.w : Agree(a.nano, a.w[i], b.w[i])
               /\ Len(a.sets) = Len(b.sets) /\ \A i \in DOMAIN a.sets : SameSet(a.sets[i], b.sets[i], a.nano)
=============================================================================
