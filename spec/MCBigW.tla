------------------------------ MODULE MCBigW ------------------------------
(* Checks the overridden B* operators against the P* definitions. *)
EXTENDS BigW, Integers
VARIABLES a, b
D == {0, 1, 2, 8191, 8192, 32766, 32767}
Nums == {<<>>} \cup {<<x>> : x \in D \ {0}} \cup {<<x, y>> : x \in D, y \in D \ {0}}
         \cup {<<x, y, z>> : x \in {0, 32767}, y \in {0, 1, 32767}, z \in {1, 32767}}
Init == a \in Nums /\ b \in Nums
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Agree ==
  /\ BAdd(a, b) = PAdd(a, b)
  /\ BMul(a, b) = PMul(a, b)
  /\ BLess(a, b) = PLess(a, b)
  /\ BProd(<<a, b, a>>) = PProdUpTo(<<a, b, a>>, 3)
  /\ BPow(a, 3) = PPow(a, 3) /\ BPow(b, 0) = <<1>>
  /\ BProd(<<>>) = <<1>>
  /\ BDot2(a, b, b, b) = PAdd(PMul(a, b), PMul(b, b))
  /\ BClearlyLess(a, b) = PLess(PMul(a, <<1, 8192>>), PMul(b, <<0, 8192>>))
  /\ \A n \in {0, 1, 32767, 32768, 2147483647} : BNat(n) = PNat(n)
============================================================================
