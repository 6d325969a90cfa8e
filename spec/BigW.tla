------------------------------- MODULE BigW -------------------------------
(***************************************************************************)
(* Exact natural numbers of any size, used as likelihood weights.          *)
(* A number is its sequence of base-2^15 digits, least significant first,  *)
(* without leading zeros (0 is <<>>), so equal numbers are equal values.   *)
(* The definitions below are the meaning; java/BigW.java overrides them    *)
(* for speed, and MCBigW.tla checks the override against these definitions *)
(* (TLC replaces only the operators named B*, the definitions P* stay).    *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Base == 32768

RECURSIVE PTrim(_)
PTrim(a) == IF a = <<>> THEN a
            ELSE IF a[Len(a)] = 0 THEN PTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE PNat(_)
PNat(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o PNat(n \div Base)

Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE PAddC(_, _, _, _)
PAddC(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Dig(a, i) + Dig(b, i) + c IN <<s % Base>> \o PAddC(a, b, i + 1, s \div Base)
PAdd(a, b) == PAddC(a, b, 1, 0)

\* a times the digit d, plus carry c.
RECURSIVE PMulD(_, _, _, _)
PMulD(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[i] * d + c IN <<s % Base>> \o PMulD(a, d, i + 1, s \div Base)
RECURSIVE PMul(_, _)
PMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE PTrim(PAdd(PMulD(a, b[1], 1, 0), <<0>> \o PMul(a, SubSeq(b, 2, Len(b)))))

RECURSIVE PLessAt(_, _, _)
PLessAt(a, b, i) == IF i = 0 THEN FALSE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE PLessAt(a, b, i - 1)
PLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE PLessAt(a, b, Len(a))

RECURSIVE PProdUpTo(_, _)
PProdUpTo(s, i) == IF i = 0 THEN <<1>> ELSE PMul(PProdUpTo(s, i - 1), s[i])

\* ---- the operators the other modules use
BNat(n) == PNat(n)                         \* from a TLC integer
BAdd(a, b) == PAdd(a, b)
BMul(a, b) == PMul(a, b)
BLess(a, b) == PLess(a, b)
BProd(s) == PProdUpTo(s, Len(s))           \* product of a sequence of numbers
\* a is clearly smaller than b: by more than one part in 2^28.
BClearlyLess(a, b) == PLess(PMul(a, <<1, 8192>>), PMul(b, <<0, 8192>>))
\* Powers, with the exponent a TLC integer.
RECURSIVE PPow(_, _)
PPow(a, n) == IF n = 0 THEN <<1>> ELSE IF n % 2 = 1 THEN PMul(a, PPow(a, n - 1)) ELSE LET h == PPow(a, n \div 2) IN PMul(h, h)
BPow(a, n) == PPow(a, n)
\* Sum of products of two equally long sequences of numbers taken in pairs:
\* a[1]*b[1] + a[2]*b[2] (used by the symbol algebra).
BDot2(a1, b1, a2, b2) == PAdd(PMul(a1, b1), PMul(a2, b2))
============================================================================
