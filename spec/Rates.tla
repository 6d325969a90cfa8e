------------------------------- MODULE Rates -------------------------------
(* Printed decimals against the counters they stand for. *)
EXTENDS BigW, Integers, Sequences
BLeq(u, v) == ~BLess(v, u)
\* A decimal of rate <<M, e>> stands for a / b: |a / b - M 10^-e| is at most half a
\* unit of its last place, and M has as many digits as the format shows.
Ten == BNat(10)
RECURSIVE P10(_)
P10(i) == IF i = 0 THEN <<1>> ELSE BMul(Ten, P10(i - 1))
Slack(x) == BMul(x, BNat(1000001))
RateOk(r, a, b) ==
  LET M == r[1] e == r[2] p == P10(IF e < 0 THEN -e ELSE e)
      \* 2 a 10^e against (2 M -+ 1) b  (both sides times 10^-e if e < 0)
      x == IF e < 0 THEN BMul(BNat(2), a) ELSE BMul(BMul(BNat(2), a), p)
      y(v) == IF e < 0 THEN BMul(BMul(BNat(v), b), p) ELSE BMul(BNat(v), b)
      Le(u, v) == BLeq(BMul(u, BNat(1000000)), Slack(v))
  IN IF a = <<>> THEN M = 0
     ELSE /\ M >= 100                      \* at least three digits are shown
          /\ Le(x, y(2 * M + 1)) /\ Le(y(2 * M - 1), x)
Rate(r, a, b) == IF b = 0 THEN TRUE ELSE RateOk(r, BNat(a), BNat(b))
RateK(r, a, b, k) == IF b = 0 THEN TRUE ELSE RateOk(r, BNat(a), BMul(BNat(b), BNat(k)))
MlRate(r, a, b) == IF b = 0 THEN r[1] = 0 ELSE RateOk(r, BNat(a), BNat(b))
\* A printed SNR <<M, e>> against the value in millionths.
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE I10(_)
I10(i) == IF i <= 0 THEN 1 ELSE 10 * I10(i - 1)
SnrOk(r, s) == r[2] >= 0 /\ r[2] <= 6 /\ Abs(r[1] * I10(6 - r[2]) - s) * 2 <= I10(6 - r[2])

=============================================================================
