------------------------------- MODULE MCCrc -------------------------------
EXTENDS Crc, FiniteSets
CONSTANTS MaxG, MaxX
VARIABLES gen, x
Init == \E g \in 1..MaxG : gen \in [1..g -> {0, 1}] /\ x = <<>>
Next == x = <<>> /\ UNCHANGED gen /\ \E l \in Len(gen)..MaxX : x' \in [1..l -> {0, 1}]
Spec == Init /\ [][Next]_<<gen, x>>
IsRemainder ==
  x # <<>> =>
  LET r == Rem(x, gen)
      G == 2^Len(gen) + PolyVal(gen)
      d == XorNat(PolyVal(x), PolyVal(r))
  IN /\ Len(r) = Len(gen)
     /\ \E q \in 0..(2^(Len(x) - Len(gen)) - 1) : MulNat(G, q) = d
\* A word is accepted for exactly one check part, and check bits are linear.
Exactly == x # <<>> =>
  LET ok == {c \in [1..Len(gen) -> {0, 1}] : ValidCrc(x \o [i \in 1..Len(gen) |-> c[i]], gen)}
  IN Cardinality(ok) = 1 /\ ValidCrc(AddCrc(x, gen), gen) /\ InfoPart(AddCrc(x, gen), gen) = x
============================================================================
