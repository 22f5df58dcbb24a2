----------------------------- MODULE Inversion -----------------------------
(* Least squares after Tarantola and Valette, on integer matrices (sequences *)
(* of rows).  Everything is multiplied by det(S), S = Cd + G Cp G', which    *)
(* makes it an integer.                                                      *)
EXTENDS Integers, Sequences, TLC
R(a) == Len(a)
C(a) == Len(a[1])
RECURSIVE DotTo(_, _, _, _, _)
DotTo(a, b, r, c, n) == IF n = 0 THEN 0 ELSE DotTo(a, b, r, c, n - 1) + a[r][n] * b[n][c]
Mul(a, b) == TLCEval([r \in 1..R(a) |-> TLCEval([c \in 1..C(b) |-> DotTo(a, b, r, c, C(a))])])
Tr(a) == TLCEval([r \in 1..C(a) |-> TLCEval([c \in 1..R(a) |-> a[c][r]])])
Add(a, b) == TLCEval([r \in 1..R(a) |-> TLCEval([c \in 1..C(a) |-> a[r][c] + b[r][c]])])
Sub(a, b) == TLCEval([r \in 1..R(a) |-> TLCEval([c \in 1..C(a) |-> a[r][c] - b[r][c]])])
Scale(k, a) == TLCEval([r \in 1..R(a) |-> TLCEval([c \in 1..C(a) |-> k * a[r][c]])])
Id(n) == [r \in 1..n |-> [c \in 1..n |-> IF r = c THEN 1 ELSE 0]]
Minor(a, r, c) == TLCEval([i \in 1..(R(a) - 1) |-> TLCEval([j \in 1..(R(a) - 1) |-> a[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1]])])
Sign(n) == IF n % 2 = 0 THEN 1 ELSE -1
RECURSIVE Det(_), DetTo(_, _)
Det(a) == IF R(a) = 1 THEN a[1][1] ELSE DetTo(a, R(a))
DetTo(a, n) == IF n = 0 THEN 0 ELSE DetTo(a, n - 1) + Sign(n + 1) * a[1][n] * Det(Minor(a, 1, n))
Adj(a) == IF R(a) = 1 THEN <<<<1>>>> ELSE TLCEval([r \in 1..R(a) |-> TLCEval([c \in 1..R(a) |-> Sign(r + c) * Det(Minor(a, c, r))])])
S(x) == Add(x.cd, Mul(Mul(x.g, x.cp), Tr(x.g)))
Gain(x) == Mul(Mul(x.cp, Tr(x.g)), Adj(S(x)))            \* times det(S)
Residual(x) == Add(Sub(x.d0, x.dm), Mul(x.g, Sub(x.pm, x.p0)))
Update(x) == Add(Scale(Det(S(x)), x.p0), Mul(Gain(x), Residual(x)))
Posterior(x) == Sub(Scale(Det(S(x)), x.cp), Mul(Mul(Gain(x), x.g), x.cp))
\* theorems
IsInverse(a) == Mul(a, Adj(a)) = Scale(Det(a), Id(R(a)))
\* the posterior covariance is the inverse of Cp^-1 + G' Cd^-1 G
Precision(x) == Add(Scale(Det(x.cd), Adj(x.cp)), Scale(Det(x.cp), Mul(Mul(Tr(x.g), Adj(x.cd)), x.g)))
PosteriorOK(x) == Mul(Posterior(x), Precision(x)) = Scale(Det(S(x)) * Det(x.cp) * Det(x.cd), Id(R(x.cp)))
Symmetric(a) == a = Tr(a)
Shrinks(x) == Det(S(x)) > 0 /\ \A r \in 1..R(x.cp) : Posterior(x)[r][r] >= 0 /\ Posterior(x)[r][r] <= Det(S(x)) * x.cp[r][r]
\* a linear problem is solved by one update, from whatever iterate it starts
LinearFixed(x) == LET lin(p) == [x EXCEPT !.pm = p, !.dm = Mul(x.g, p)] IN Update(lin(x.pm)) = Update(lin(x.p0))
=============================================================================
