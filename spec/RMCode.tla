------------------------------ MODULE RMCode ------------------------------
(***************************************************************************)
(* The codes.  A code is a recursive (u, u+v) decomposition tree cut at    *)
(* border nodes:                                                           *)
(*   kind "polar": down to single symbols              (polar codes)       *)
(*   kind "rm0"  : RM(r,m) down to (0,m') and (m',m')  (dtrm0, dtrm_glp)   *)
(*   kind "rm1"  : RM(r,m) down to (1,m') and (m',m')  (dtrm1)             *)
(* A node (m, r) has the v-subtree (m-1, r-1) on the left and the          *)
(* u-subtree (m-1, r) on the right and consists of the words (v+u | u).    *)
(* The mask has one entry per border node in visiting order (v before u);  *)
(* a node with entry 0 is zeroed (frozen) and consumes no message bits.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Pow2 == TLCEval([i \in 0..30 |-> 2^i])

RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0
               ELSE IF k = 0 THEN 1 ELSE (Binom(n, k - 1) * (n - k + 1)) \div k

IsLeaf(kind, m, r) == CASE kind = "polar" -> m = 0
                        [] kind = "rm0" -> r = 0 \/ r = m
                        [] kind = "rm1" -> r = 1 \/ r = m
VR(kind, r) == IF kind = "polar" THEN 0 ELSE r - 1       \* order of the v-subtree
UR(kind, r) == IF kind = "polar" THEN 0 ELSE r           \* order of the u-subtree

\* Kinds of border nodes.
LeafType(kind, m, r) ==
  CASE kind = "polar" -> "rep"
    [] r = m /\ m > 0 -> "full"
    [] r = 0 -> "rep"
    [] OTHER -> "rm1"

\* Number of border nodes.
NumLeaves(kind, m, r) ==
  CASE kind = "polar" -> Pow2[m]
    [] kind = "rm0" -> IF r = 0 \/ r = m THEN 1 ELSE Binom(m, r)
    [] kind = "rm1" -> IF r = 1 \/ r = m THEN 1 ELSE Binom(m - 1, r - 1)

\* Border nodes in visiting order, as <<type, m>>.
RECURSIVE Leaves(_, _, _)
Leaves(kind, m, r) ==
  IF IsLeaf(kind, m, r) THEN <<<<LeafType(kind, m, r), m>>>>
  ELSE Leaves(kind, m - 1, VR(kind, r)) \o Leaves(kind, m - 1, UR(kind, r))

LeafDim(leaf) == CASE leaf[1] = "rep" -> 1
                   [] leaf[1] = "full" -> Pow2[leaf[2]]
                   [] leaf[1] = "rm1" -> leaf[2] + 1

MaskDims(L, mask) == TLCEval([i \in 1..Len(L) |-> IF mask[i] = 0 THEN 0 ELSE LeafDim(L[i])])
Dim(kind, m, r, mask) ==
  LET L == TLCEval(Leaves(kind, m, r)) IN FoldLeft(LAMBDA acc, d : acc + d, 0, MaskDims(L, mask))

RMDim(m, r) == LET S[i \in 0..r] == Binom(m, i) + (IF i = 0 THEN 0 ELSE S[i-1]) IN S[r]

Zeros(n) == [i \in 1..n |-> 0]
Xor(a, b) == IF a = b THEN 0 ELSE 1
VXor(x, y) == [i \in 1..Len(x) |-> Xor(x[i], y[i])]
\* (v+u | u)
Plotkin(v, u) == VXor(v, u) \o u
Half1(x) == SubSeq(x, 1, Len(x) \div 2)
Half2(x) == SubSeq(x, Len(x) \div 2 + 1, Len(x))

\* The full space node: all positions free, encoded recursively down to
\* single symbols.  The map is its own inverse.
RECURSIVE EncFull(_)
EncFull(x) == IF Len(x) = 1 THEN x ELSE Plotkin(TLCEval(EncFull(TLCEval(Half1(x)))), TLCEval(EncFull(TLCEval(Half2(x)))))

\* First order node: constant v first, then the rest.
RECURSIVE EncRM1(_, _)
EncRM1(m, x) == IF m = 1 THEN Plotkin(<<x[1]>>, <<x[2]>>)
                ELSE Plotkin([i \in 1..Pow2[m-1] |-> x[1]], TLCEval(EncRM1(m - 1, TLCEval(Tail(x)))))

LeafWord(leaf, x) == CASE leaf[1] = "rep" -> [i \in 1..Pow2[leaf[2]] |-> x[1]]
                       [] leaf[1] = "full" -> EncFull(x)
                       [] leaf[1] = "rm1" -> EncRM1(leaf[2], x)

\* Word of the node (m, r) from the words ws of its border nodes.
RECURSIVE Assemble(_, _, _, _)
Assemble(kind, m, r, ws) ==
  IF IsLeaf(kind, m, r) THEN ws[1]
  ELSE LET nv == NumLeaves(kind, m - 1, VR(kind, r)) IN
       Plotkin(TLCEval(Assemble(kind, m - 1, VR(kind, r), TLCEval(SubSeq(ws, 1, nv)))),
               TLCEval(Assemble(kind, m - 1, UR(kind, r), TLCEval(SubSeq(ws, nv + 1, Len(ws))))))

\* Words of the border nodes for message x.
LeafWords(kind, m, r, mask, x) ==
  LET L == TLCEval(Leaves(kind, m, r))
      \* T[i+1]: number of message bits of the first i leaves
      T == TLCEval(FoldLeft(LAMBDA acc, d : Append(acc, acc[Len(acc)] + d), <<0>>, MaskDims(L, mask)))
  IN [i \in 1..Len(L) |->
        IF mask[i] = 0 THEN Zeros(Pow2[L[i][2]])
        ELSE LeafWord(L[i], TLCEval(SubSeq(x, T[i] + 1, T[i+1])))]

Encode(kind, m, r, mask, x) == Assemble(kind, m, r, TLCEval(LeafWords(kind, m, r, mask, x)))

---------------------------------------------------------------------------
(* The same codes by their generator matrix: message bit i has a label, an *)
(* m-bit integer, and contributes to code position j (from 0) exactly when *)
(* j and the label have no common bit.  The labels of a code in message    *)
(* order are decreasing; RM(r,m) has all those of weight <= r.             *)
RECURSIVE Labels(_, _, _)      \* sequence (one per border node) of label sequences
Labels(kind, m, r) ==
  LET Up(x) == [i \in 1..Len(x) |-> x[i] + Pow2[m-1]] IN
  IF IsLeaf(kind, m, r)
  THEN <<CASE LeafType(kind, m, r) = "rep" -> <<0>>
           [] LeafType(kind, m, r) = "full" -> [i \in 1..Pow2[m] |-> Pow2[m] - i]
           [] LeafType(kind, m, r) = "rm1" -> [i \in 1..(m+1) |-> IF i = m + 1 THEN 0 ELSE Pow2[m - i]]>>
  ELSE LET lv == Labels(kind, m - 1, VR(kind, r))
           lu == Labels(kind, m - 1, UR(kind, r))
       IN [i \in 1..Len(lv) |-> TLCEval(Up(lv[i]))] \o lu

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

MsgLabels(kind, m, r, mask) ==
  LET lb == TLCEval(Labels(kind, m, r))
  IN Flatten([i \in 1..Len(lb) |-> IF mask[i] = 0 THEN <<>> ELSE lb[i]])

RECURSIVE Disjoint(_, _)
Disjoint(a, b) == IF a = 0 \/ b = 0 THEN TRUE
                  ELSE ~(a % 2 = 1 /\ b % 2 = 1) /\ Disjoint(a \div 2, b \div 2)

GenEncode(m, labels, x) ==
  [j \in 1..Pow2[m] |-> Cardinality({i \in 1..Len(labels) : x[i] = 1 /\ Disjoint(j - 1, labels[i])}) % 2]

BitCount(a) == LET B[i \in Nat] == IF i = 0 THEN 0 ELSE (i % 2) + B[i \div 2] IN B[a]
Weight(c) == Cardinality({i \in 1..Len(c) : c[i] = 1})
============================================================================
