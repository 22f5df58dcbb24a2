-------------------------------- MODULE Ring --------------------------------
(* Exact complex arithmetic for spectra: integer combinations of the M-th    *)
(* roots of unity, z = sum of z[k+1] * exp(2*pi*i*k/M), multiplied by cyclic *)
(* convolution.  Only the final comparison with a float rounds.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumTo(F, n - 1)

Cos24 == <<10000, 9659, 8660, 7071, 5000, 2588, 0, -2588, -5000, -7071, -8660, -9659, -10000,
           -9659, -8660, -7071, -5000, -2588, 0, 2588, 5000, 7071, 8660, 9659>>
\* cos(2*pi*k/M) in units of 1/10000, for M dividing 24
C(M, k) == Cos24[((k % M) * (24 \div M)) + 1]
S(M, k) == Cos24[(((k % M) * (24 \div M) + 18) % 24) + 1]

Zero(M) == [k \in 1..M |-> 0]
Mono(M, a, e) == [k \in 1..M |-> IF k - 1 = e % M THEN a ELSE 0]
Add(x, y) == TLCEval([k \in DOMAIN x |-> x[k] + y[k]])
Scale(c, x) == TLCEval([k \in DOMAIN x |-> c * x[k]])
Rot(x, e) == TLCEval([k \in DOMAIN x |-> x[((k - 1 - e) % Len(x)) + 1]])      \* times exp(2*pi*i*e/M)
Conj(x) == [k \in DOMAIN x |-> x[((-(k - 1)) % Len(x)) + 1]]
Mul(x, y) == TLCEval([k \in DOMAIN x |-> SumTo(LAMBDA j : x[j] * y[((k - j) % Len(x)) + 1], Len(x))])
Abs2(x) == TLCEval([k \in DOMAIN x |-> SumTo(LAMBDA j : x[j] * x[((j - k) % Len(x)) + 1], Len(x))])
L1(x) == SumTo(LAMBDA k : RAbs(x[k]), Len(x))
RECURSIVE SumR(_, _, _)
SumR(F(_), n, M) == IF n = 0 THEN Zero(M) ELSE Add(F(n), SumR(F, n - 1, M))
\* real and imaginary part in units of 1/sc (sc divides 10000)
Re(x, sc) == SumTo(LAMBDA k : x[k] * (C(Len(x), k - 1) \div (10000 \div sc)), Len(x))
Im(x, sc) == SumTo(LAMBDA k : x[k] * (S(Len(x), k - 1) \div (10000 \div sc)), Len(x))
\* v (an integer in units of 1/sc) is the real (imaginary) part of x, up to the rounding of the table
IsRe(v, x, sc) == RAbs(v - Re(x, sc)) <= L1(x) + 2
IsIm(v, x, sc) == RAbs(v - Im(x, sc)) <= L1(x) + 2

\* discrete Fourier transform of an integer record at index f (N divides f*M)
DFT(M, w, f) == LET N == Len(w)
                    step == (f * M) \div N
                IN TLCEval([k \in 1..M |-> SumTo(LAMBDA n : IF (k - 1 + step * (n - 1)) % M = 0 THEN w[n] ELSE 0, N)])
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, a, b) == IF b - a <= 1 THEN a
                    ELSE LET m == (a + b) \div 2 IN IF m * m <= n THEN ISqrtIn(n, m, b) ELSE ISqrtIn(n, a, m)
ISqrt(n) == ISqrtIn(n, 0, 46340)
=============================================================================
