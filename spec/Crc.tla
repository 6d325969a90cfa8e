-------------------------------- MODULE Crc --------------------------------
(* Polynomial remainders over GF(2); polynomials are bit sequences, highest *)
(* power first.  A generator of degree g is given by its g coefficients     *)
(* below the leading one.                                                   *)
EXTENDS Integers, Sequences, SequencesExt, TLC

CXor(a, b) == IF a = b THEN 0 ELSE 1
\* Remainder of x (at least g bits) by the generator, g bits long.
\* The register r holds g coefficients; the next coefficient b is shifted in.
Shift(r, b, gen) == [i \in 1..Len(gen) |-> LET s == IF i < Len(gen) THEN r[i+1] ELSE b IN IF r[1] = 0 THEN s ELSE CXor(s, gen[i])]
Rem(x, gen) ==
  IF Len(x) <= Len(gen) THEN x
  ELSE FoldLeft(LAMBDA r, b : TLCEval(Shift(r, b, gen)), SubSeq(x, 1, Len(gen)), SubSeq(x, Len(gen) + 1, Len(x)))

\* Message followed by its check bits.
AddCrc(x, gen) == IF gen = <<>> THEN x ELSE x \o Rem(x, gen)
InfoPart(w, gen) == SubSeq(w, 1, Len(w) - Len(gen))
ValidCrc(w, gen) == gen = <<>> \/ SubSeq(w, Len(w) - Len(gen) + 1, Len(w)) = Rem(InfoPart(w, gen), gen)

\* ---- the same by multiplication: r is the remainder of x iff x + r is a
\* multiple of the generator with fewer than g+1 coefficients in r.
RECURSIVE PolyVal(_)
PolyVal(x) == IF x = <<>> THEN 0 ELSE 2 * PolyVal(SubSeq(x, 1, Len(x) - 1)) + x[Len(x)]
RECURSIVE XorNat(_, _)
XorNat(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a
                ELSE (IF a % 2 = b % 2 THEN 0 ELSE 1) + 2 * XorNat(a \div 2, b \div 2)
RECURSIVE MulNat(_, _)      \* product of polynomials as integers
MulNat(a, b) == IF b = 0 THEN 0 ELSE XorNat(IF b % 2 = 1 THEN a ELSE 0, MulNat(2 * a, b \div 2))
============================================================================
