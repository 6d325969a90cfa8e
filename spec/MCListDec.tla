----------------------------- MODULE MCListDec -----------------------------
(* The decoding machine against the meaning of its parts, on small codes.  *)
EXTENDS ListDec
CONSTANTS Kind, M, R, Vals      \* Vals: set of <<w0, w1>> integer pairs
VARIABLES y, mask, L, pos, paths
vars == <<y, mask, L, pos, paths>>
n == Pow2[M]
NL == NumLeaves(Kind, M, R)
Y == [j \in 1..n |-> <<BNat(y[j][1]), BNat(y[j][2])>>]
cfg == [kind |-> Kind, m |-> M, r |-> R, L |-> L, mask |-> mask, leaves |-> Leaves(Kind, M, R),
        ptab |-> <<PermTable(IdPerm(M), M)>>]
Init == /\ y \in [1..n -> Vals]
        /\ mask \in {f \in [1..NL -> {0, 1}] : Kind # "rm1" \/ \A j \in 1..NL : f[j] = 1}
        /\ L \in IF Kind = "rm1" THEN {1} ELSE {1, 2, 3, 16}
        /\ pos = 0 /\ paths = {[perm |-> 1, ws |-> <<>>, w |-> <<>>]}
Next == /\ pos < NL
        /\ pos' = pos + 1
        /\ paths' \in Step(cfg, <<Y>>, pos + 1, paths)
        /\ UNCHANGED <<y, mask, L>>
Spec == Init /\ [][Next]_vars

\* All words of length n, as results of all full-space words below the tree.
AllWords == [1..n -> {0, 1}]
Msgs == [1..Dim(Kind, M, R, mask) -> {0, 1}]
Seqs(f) == [j \in 1..Len(f) |-> f[j]]
\* The channel words consistent with the decisions ws: recursively, the
\* words whose v-part (xor of halves) agrees, then whose u-part agrees.
RECURSIVE Agrees(_, _, _, _)
Agrees(m, r, ws, c) ==
  IF ws = <<>> THEN TRUE
  ELSE IF IsLeaf(Kind, m, r) THEN c = ws[1]
  ELSE LET nv == NumLeaves(Kind, m - 1, VR(Kind, r))
           cv == VXor(Half1(c), Half2(c))
           nn == IF Len(ws) < nv THEN Len(ws) ELSE nv
       IN /\ Agrees(m - 1, VR(Kind, r), SubSeq(ws, 1, nn), cv)
          /\ Agrees(m - 1, UR(Kind, r), SubSeq(ws, nv + 1, Len(ws)), Half2(c))
RECURSIVE SumW(_)
SumW(S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE c \in S : TRUE IN BAdd(WordWeight(Y, c), SumW(S \ {c}))

\* The order of paths is the order of the total likelihoods of what they leave open.
PathLikelihood ==
  pos > 0 => \A p \in paths :
     p.w = SumW({c \in {Seqs(f) : f \in AllWords} : Agrees(M, R, p.ws, c)})
ListSize == Cardinality(paths) <= (IF pos = 0 THEN 1 ELSE L)
\* Surviving words are code words; the best of a list as large as the code
\* is a maximum likelihood code word if no full space node is longer than 2.
Short == \A j \in 1..NL : cfg.leaves[j][1] # "full" \/ cfg.leaves[j][2] <= 1 \/ mask[j] = 0
Final ==
  pos = NL =>
    LET code == {Encode(Kind, M, R, mask, Seqs(x)) : x \in Msgs}
        words == {PathWord(cfg, p) : p \in paths}
        best == CHOOSE p \in paths : \A q \in paths : ~BLess(p.w, q.w)
    IN /\ words \subseteq code
       /\ \A p \in paths : p.w = WordWeight(Y, PathWord(cfg, p))
       /\ Short /\ (L >= Cardinality(Msgs) \/ (Kind = "rm1" /\ R = 1)) =>
            \A c \in code : ~BLess(best.w, WordWeight(Y, c))
\* FourBest is what it says.
Four ==
  pos = 0 => LET S == FourBest(Y) IN
           \A c \in {Seqs(f) : f \in AllWords} \ S : \A d \in S : ~BLess(WordWeight(Y, d), WordWeight(Y, c))
============================================================================
