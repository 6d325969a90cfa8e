----------------------------- MODULE TraceLoad -----------------------------
(***************************************************************************)
(* What the Octave loader returns for a results file.  Record:             *)
(*  there     the file exists and all its groups are closed                *)
(*  n, k      code_n, code_k of the file (0: absent)                       *)
(*  lens      lengths of its lists SNR, tr_num, ... (0: absent)            *)
(*  snr       <<negative, p, d>> per value: +-p * 10^-d, p in BigW digits *)
(*  cols      the counter lists: trn, ebit, ebl, er, trnml, eml            *)
(*  out       "error", or the fields, each a sequence of numbers           *)
(*            [neg, m, e]: (-1)^neg * m / 2^e, m in digits of BigW         *)
(***************************************************************************)
EXTENDS BigW, Integers, Json, IOUtils, TLC, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, done
R == Trace[rec]
Consistent == /\ R.there /\ R.n > 0 /\ R.k > 0 /\ \A x \in DOMAIN R.lens : R.lens[x] = R.lens["SNR"] /\ R.lens[x] <= 50
\* Equal up to one part in 2^50.
Tol == BPow(<<2>>, 50)
Near(v, a, b) ==                 \* v = a / b, a and b in BigW, a, b >= 0
  LET x == BMul(v.m, b) y == BMul(a, BPow(<<2>>, v.e))
      le(s, t) == ~BLess(BMul(t, BAdd(Tol, <<1>>)), BMul(s, Tol))
  IN IF a = <<>> THEN v.m = <<>> ELSE le(x, y) /\ le(y, x)
Nat1(v, n) == ~v.neg /\ Near(v, BNat(n), <<1>>)
Ratio(v, a, b) == ~v.neg /\ (IF b = <<>> THEN v.m = <<>> ELSE Near(v, BNat(a), b))
Points == R.lens["SNR"]
Col(c, i) == R.cols[c][i]
Loaded ==
  LET o == R.out N == Points IN
  /\ {"n", "k", "EbNo", "BER", "WER", "ERR", "MLER"} \subseteq DOMAIN o
  /\ Len(o.n) = 1 /\ Nat1(o.n[1], R.n) /\ Len(o.k) = 1 /\ Nat1(o.k[1], R.k)
  /\ Len(o.EbNo) = N /\ Len(o.BER) = N /\ Len(o.WER) = N /\ Len(o.ERR) = N /\ Len(o.MLER) = N
  /\ \A i \in 1..N :
       /\ LET s == R.snr[i] IN s[1] = (o.EbNo[i].neg /\ o.EbNo[i].m # <<>>) /\ Near(o.EbNo[i], s[2], BPow(BNat(10), s[3]))
       /\ Ratio(o.BER[i], Col("ebit", i), BMul(BNat(Col("trn", i)), BNat(R.k)))
       /\ Ratio(o.WER[i], Col("ebl", i), BNat(Col("trn", i)))
       /\ Ratio(o.ERR[i], Col("er", i), BNat(Col("trn", i)))
       /\ Ratio(o.MLER[i], Col("eml", i), BNat(Col("trnml", i)))
Ok == IF Consistent THEN ~R.error /\ Loaded ELSE R.error
Init == rec \in 1..Len(Trace) /\ done = FALSE
Next == ~done /\ Ok /\ PrintT(<<"ACC", R.id>>) /\ done' = TRUE /\ UNCHANGED rec
Spec == Init /\ [][Next]_<<rec, done>>
=============================================================================
