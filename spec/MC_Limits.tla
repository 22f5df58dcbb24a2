----------------------------- MODULE MC_Limits -----------------------------
EXTENDS Limits, TLC, Json
CONSTANTS N
VARIABLES k, op
F == {<<a, b>> : a \in 1..N, b \in 1..2}
All == {"frequency", "wavelength", "velocity", "slowness", "wavenumber", "period"}
Xs == <<<<1, 1>>, <<3, 2>>, <<4, 1>>>>
Ys == <<<<2, 1>>, <<5, 1>>, <<7, 2>>>>
Init == k = 0 /\ op = [name |-> "init"]
Next == /\ k = 0 /\ k' = 1
        /\ \E xt \in All, at \in All, yt \in All, lo \in F, up \in F :
             LET d == Do(xt, at, yt, <<lo, up>>, Xs, Ys)
             IN op' = [name |-> "limits", xt |-> xt, at |-> at, yt |-> yt, lims |-> <<lo, up>>, xs |-> Xs, ys |-> Ys, out |-> d.out, curves |-> d.curves]
Spec == Init /\ [][Next]_<<k, op>>
Emit == PrintT(<<"E", ToJson([p |-> [k |-> k], o |-> op', q |-> [k |-> k']])>>)
\* the same physical limit on every pair of axes: a wave lies on the limit's curve on one pair iff it does on all
OneLimit == \A f \in F, w \in F, lim \in F, at \in Attrs : \A xt \in XTypes, yt \in YTypes : Supported(xt, at, yt) =>
              (OnLimit(xt, at, yt, lim, X(xt, f, w), Y(yt, f, w)) <=> Eq(w, LimitWavelength(at, lim)))
\* every point of a curve is on its limit
CurvesOnLimit == op.name = "limits" /\ op.out = "ok" =>
   \A c \in 1..2 : \A j \in 1..Len(op.curves[c]) : OnLimit(op.xt, op.at, op.yt, op.lims[c], op.curves[c][j][1], op.curves[c][j][2])
InvOnce == k = 0 => OneLimit
=============================================================================
