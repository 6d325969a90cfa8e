----------------------------- MODULE MCRMCode -----------------------------
(* The recursive definition of the codes against their generator matrices, *)
(* for every code, mask and message up to MaxM.                             *)
EXTENDS RMCode
CONSTANTS MaxM, MaxMsk
VARIABLES kind, m, r, mask, x, chosen
vars == <<kind, m, r, mask, x, chosen>>
Bits(n) == [1..n -> {0, 1}]
ToSeq(f, n) == [i \in 1..n |-> f[i]]
Ones(n) == [i \in 1..n |-> 1]
Init ==
  /\ kind \in {"polar", "rm0", "rm1"}
  /\ m \in 1..MaxM
  /\ r \in IF kind = "polar" THEN {0} ELSE 1..m
  /\ LET nl == NumLeaves(kind, m, r) IN
       mask \in IF kind = "rm1" \/ nl > MaxMsk THEN {Ones(nl)} ELSE Bits(nl)
  /\ Dim(kind, m, r, mask) <= 11
  /\ x = Zeros(Dim(kind, m, r, mask)) /\ chosen = FALSE
Next == \* pick a message
  /\ ~chosen /\ chosen' = TRUE
  /\ x' \in Bits(Dim(kind, m, r, mask))
  /\ UNCHANGED <<kind, m, r, mask>>
Spec == Init /\ [][Next]_vars
c == Encode(kind, m, r, mask, x)
full == \A i \in 1..Len(mask) : mask[i] = 1
SameCode == c = GenEncode(m, MsgLabels(kind, m, r, mask), x)
Sorted == LET l == MsgLabels(kind, m, r, mask) IN \A i \in 1..(Len(l) - 1) : l[i] > l[i+1]
Shape == /\ Len(c) = Pow2[m]
         /\ Len(MsgLabels(kind, m, r, mask)) = Dim(kind, m, r, mask)
         /\ full /\ kind # "polar" => Dim(kind, m, r, mask) = RMDim(m, r)
MinDist == kind # "polar" /\ (\E i \in DOMAIN x : x[i] = 1) => Weight(c) >= Pow2[m - r]
\* both RM decompositions describe the same code and message order
SameRM == kind = "rm1" => c = Encode("rm0", m, r, Ones(NumLeaves("rm0", m, r)), x)
Labelled == kind # "polar" /\ full =>
   LET l == MsgLabels(kind, m, r, mask) IN {l[i] : i \in 1..Len(l)} = {i \in 0..(Pow2[m]-1) : BitCount(i) <= r}
SelfInverse == kind = "rm0" /\ r = m /\ full => EncFull(EncFull(x)) = x
============================================================================
