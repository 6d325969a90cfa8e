----------------------------- MODULE TraceAwgn -----------------------------
(***************************************************************************)
(* The simulated channel.  Records:                                        *)
(*  sigma  [p, d, rn, rd, m, e]: at p / 10^d dB and rate rn / rd the codec *)
(*         was told sigma = m / 2^e (m as digits of BigW)                  *)
(*  noise  [sg, s, y, n]: the symbols sent and the values received one     *)
(*         after another in units of 2^-20, n per code word, sigma too     *)
(*  count  [u, s1, s2, h, c1, c2]: of u 10^5 samples in units of sigma, the *)
(*         sums of z and z^2 - 1, how many have |z| in [0, 1/4), [1/4, 1/2) *)
(*         .. [19/4, 5), [5, oo) (positive ones first), and the sums of     *)
(*         products, and of (z^2 - 1)(z'^2 - 1)/2, of samples l apart       *)
(*  bits   [b, k]: all message bits of a run one after another             *)
(***************************************************************************)
EXTENDS BigW, Integers, Json, IOUtils, TLC, SequencesExt, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, done, qs   \* qs: the noise in sixteenths of sigma, computed once
R == Trace[rec]

RECURSIVE Pow10(_)
Pow10(i) == IF i = 0 THEN 1 ELSE 10 * Pow10(i - 1)
Close(a, b) == ~BClearlyLess(a, b) /\ ~BClearlyLess(b, a)
Two == <<2>>
\* 2 R sigma^2 10^(p / 10^(d+1)) = 1, raised to the power q = 10^(d+1).
SigmaOk(t) ==
  LET q == Pow10(t.d + 1)
      l == BMul(BPow(BMul(Two, BNat(t.rn)), q), BPow(t.m, 2 * q))
      r == BMul(BPow(BNat(t.rd), q), BPow(Two, 2 * q * t.e))
      p == BPow(BNat(10), IF t.p < 0 THEN -t.p ELSE t.p)
  IN IF t.p < 0 THEN Close(l, BMul(r, p)) ELSE Close(BMul(l, p), r)

\* Probabilities of a standard normal sample in (-inf,-4), [-4,-3.5), ...,
\* [3.5,4), [4,inf), in units of 10^-4.
P4 == <<0, 2, 11, 49, 165, 441, 918, 1499, 1915, 1915, 1499, 918, 441, 165, 49, 11, 2, 0>>
Sq(x) == x * x
Abs(x) == IF x < 0 THEN -x ELSE x
SumOver(n, f(_)) == FoldLeft(LAMBDA a, i : a + f(i), 0, [i \in 1..n |-> i])
Noise(t) == [i \in 1..Len(t.y) |-> t.y[i] - t.s[i]]
\* Samples in sixteenths of sigma, rounded down.
Quant(t) == LET z == Noise(t) IN [i \in 1..Len(z) |-> (16 * z[i]) \div t.sg]
Bin(q) == LET b == q \div 8 + 10 IN IF b < 1 THEN 1 ELSE IF b > 18 THEN 18 ELSE b
Hist(z) == FoldLeft(LAMBDA h, x : [h EXCEPT ![Bin(x)] = @ + 1], [b \in 1..18 |-> 0], z)

\* |c - e| within six standard deviations (e: expected, v: variance).
Within(c, e, v) == Abs(c - e) < 40000 /\ Sq(c - e) <= 40 * v + 100
NoiseOk(t) ==
  LET q == qs
      N == Len(t.y)
      h == TLCEval(Hist(qs))
      raw == TLCEval(Noise(t))
      words == N \div t.n
      At(w, j) == q[(w - 1) * t.n + j]
      CM == 16 * 16
  IN /\ N % t.n = 0 /\ N <= 50000 /\ N >= 2000 /\ Len(t.s) = N
     /\ \A i \in 1..N : Abs(q[i]) <= 160           \* nothing beyond 10 sigma
     \* the distribution is normal
     /\ \A b \in 1..18 : LET e == (N * P4[b]) \div 10000 IN Within(h[b], e, e)
     \* mean zero (the quantisation shifts by half a unit), variance one
     /\ Within((2 * SumOver(N, LAMBDA i : q[i]) + N) \div 32, 0, N)
     /\ Within(SumOver(N, LAMBDA i : q[i] * q[i]) \div CM, N, 2 * N)
     \* the same at every symbol position
     /\ \A j \in 1..t.n :
          /\ Within((2 * SumOver(words, LAMBDA w : At(w, j)) + words) \div 32, 0, words)
          /\ Within(SumOver(words, LAMBDA w : Sq(At(w, j))) \div CM, words, 2 * words)
     \* uncorrelated with the samples and the squares of the samples around, and
     \* with the symbols
     /\ \A l \in 1..(IF 4 * t.n > 24 THEN 24 ELSE 4 * t.n) :
          /\ Within(SumOver(N - l, LAMBDA i : (2 * q[i] + 1) * (2 * q[i + l] + 1)) \div (4 * CM), 0, N)
          /\ Within(SumOver(N - l, LAMBDA i : (Sq(q[i]) \div 16 - 16) * (Sq(q[i + l]) \div 16 - 16)) \div CM, 0, 4 * N)
     /\ Within(SumOver(N, LAMBDA i : IF t.s[i] > 0 THEN q[i] ELSE -q[i]) \div 16, 0, N)
     \* every symbol has samples of its own
     /\ Cardinality({<<raw[i], raw[i + 1]>> : i \in 1..(N - 1)}) >= N - 3
\* What is sent is the code word of the encoder (or the zero word).
SentOk(t) == \A i \in 1..Len(t.s) : Abs(t.s[i]) = 1048576

\* Expected in 10^8 samples (of each sign).
P8 == <<9870633, 9275614, 8191019, 6797210, 5300548, 3884257, 2674804, 1730902, 1052566, 601481, 322990, 162987, 77287, 34440, 14421, 5675, 2098, 729, 238, 73, 29>>
\* The same for larger numbers, six standard deviations.
CloseTo(c, e, v) == Abs(c - e) < 46000 /\ (Abs(c - e) <= 10 \/ (Abs(c - e) * Abs(c - e)) \div 36 <= v)
RECURSIVE TailOf(_, _)
TailOf(h, b) == IF b > 21 THEN 0 ELSE h[b] + TailOf(h, b + 1)
CountOk(t) ==
  LET N == t.u * 100000
      Exp(b) == (t.u * (P8[b] \div 10)) \div 100
      ExpTail(b) == (t.u * TailOf(P8, b)) \div 1000
  IN /\ t.u >= 10 /\ t.u <= 400 /\ TailOf(t.h[1], 1) + TailOf(t.h[2], 1) = N
     /\ \A g \in 1..2 : \A b \in 1..21 : CloseTo(t.h[g][b], Exp(b), Exp(b))
     \* both tails together
     /\ \A b \in 13..21 : CloseTo(TailOf(t.h[1], b) + TailOf(t.h[2], b), 2 * ExpTail(b), 2 * ExpTail(b))
     /\ CloseTo(t.s1, 0, N) /\ CloseTo(t.s2, 0, 2 * N)
     /\ \A l \in 1..16 : CloseTo(t.c1[l], 0, N) /\ CloseTo(t.c2[l], 0, 2 * N)

BitsOk(t) ==
  LET N == Len(t.b) IN
  /\ N >= 1000 /\ \A i \in 1..N : t.b[i] \in {0, 1}
  /\ Within(SumOver(N, LAMBDA i : 2 * t.b[i] - 1), 0, N)
  /\ \A l \in 1..(2 * t.k) : Within(SumOver(N - l, LAMBDA i : (2 * t.b[i] - 1) * (2 * t.b[i + l] - 1)), 0, N)
  /\ \A j \in 1..t.k : Within(SumOver(N \div t.k, LAMBDA w : 2 * t.b[(w - 1) * t.k + j] - 1), 0, N \div t.k)

Ok(t) == CASE t.t = "sigma" -> SigmaOk(t) [] t.t = "noise" -> SentOk(t) /\ NoiseOk(t) [] t.t = "count" -> CountOk(t) [] t.t = "bits" -> BitsOk(t)
Init == rec \in 1..Len(Trace) /\ done = FALSE /\ qs = <<>>
Load == ~done /\ qs = <<>> /\ qs' = (IF R.t = "noise" THEN Quant(R) ELSE <<0>>) /\ UNCHANGED <<rec, done>>
Judge == ~done /\ qs # <<>> /\ Ok(R) /\ PrintT(<<"ACC", R.id>>) /\ done' = TRUE /\ UNCHANGED <<rec, qs>>
Spec == Init /\ [][Load \/ Judge]_<<rec, done, qs>>
============================================================================
