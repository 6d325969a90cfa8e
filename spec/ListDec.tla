------------------------------ MODULE ListDec ------------------------------
(***************************************************************************)
(* The decoders of all codecs as one machine.  A decoder visits the border *)
(* nodes of its code's tree one after another.  Its state is the list of   *)
(* surviving paths; a path is a permutation of the variables (the identity *)
(* unless permutations are configured) and the words decided so far.       *)
(*                                                                         *)
(* Received symbols are pairs <<w0, w1>> of exact integer likelihoods of   *)
(* code bit 0 and 1.  The likelihood of a path is the total likelihood of  *)
(* all channel words that agree with the decisions made so far, so it does *)
(* not depend on how an implementation represents reliabilities.           *)
(*                                                                         *)
(*   dtrm0            kind rm0, L = 1                                      *)
(*   dtrm1            kind rm1, L = 1                                      *)
(*   dtrm_glp         kind rm0, any L, mask, permutations                  *)
(*   ca_polar_scl     kind polar, any L, mask, CRC                         *)
(***************************************************************************)
EXTENDS RMCode, BigW

\* ---- symbol algebra
PXor(a, b) == <<BDot2(a[1], b[1], a[2], b[2]), BDot2(a[1], b[2], a[2], b[1])>>
PAddGiven(v, a, b) == IF v = 0 THEN <<BMul(a[1], b[1]), BMul(a[2], b[2])>>
                      ELSE <<BMul(a[2], b[1]), BMul(a[1], b[2])>>
XorHalves(p) == LET n2 == Len(p) \div 2 IN TLCEval([i \in 1..n2 |-> PXor(p[i], p[i + n2])])
AddHalves(v, p) == LET n2 == Len(p) \div 2 IN TLCEval([i \in 1..n2 |-> PAddGiven(v[i], p[i], p[i + n2])])

\* Symbol likelihoods at the next border node of the subtree (kind, m, r)
\* with symbols p, after the words ws of its earlier border nodes.
RECURSIVE NodeSyms(_, _, _, _, _)
NodeSyms(kind, m, r, p, ws) ==
  IF IsLeaf(kind, m, r) THEN p
  ELSE LET nv == NumLeaves(kind, m - 1, VR(kind, r)) IN
       IF Len(ws) < nv
       THEN NodeSyms(kind, m - 1, VR(kind, r), TLCEval(XorHalves(p)), ws)
       ELSE LET v == TLCEval(Assemble(kind, m - 1, VR(kind, r), TLCEval(SubSeq(ws, 1, nv))))
            IN NodeSyms(kind, m - 1, UR(kind, r), TLCEval(AddHalves(v, p)), TLCEval(SubSeq(ws, nv + 1, Len(ws))))

WordWeight(p, w) == BProd([i \in 1..Len(w) |-> p[i][w[i] + 1]])

\* ---- candidate words of a border node
BestBit(s) == IF BLess(s[1], s[2]) THEN 1 ELSE 0
Lo(s) == s[2 - BestBit(s)]      \* likelihood of the worse bit
Hi(s) == s[BestBit(s) + 1]
\* symbol s is weaker than t: flipping it costs less
Weaker(s, t) == BLess(BMul(Lo(t), Hi(s)), BMul(Lo(s), Hi(t)))
FlipAt(w, S) == [i \in 1..Len(w) |-> IF i \in S THEN 1 - w[i] ELSE w[i]]

\* The (at most) four most likely words of a full space node.
FourBest(p) ==
  LET n == Len(p)
      best == TLCEval([i \in 1..n |-> BestBit(p[i])])
  IN IF n = 1 THEN {best, FlipAt(best, {1})}
     ELSE IF n = 2 THEN {best, FlipAt(best, {1}), FlipAt(best, {2}), FlipAt(best, {1, 2})}
     ELSE LET W(S) == CHOOSE i \in S : \A j \in S : ~Weaker(p[j], p[i])
              i1 == TLCEval(W(1..n))
              i2 == TLCEval(W((1..n) \ {i1}))
              i3 == TLCEval(W((1..n) \ {i1, i2}))
              both == TLCEval(FlipAt(best, {i1, i2}))
              third == TLCEval(FlipAt(best, {i3}))
          IN {best, FlipAt(best, {i1}), FlipAt(best, {i2})}
             \cup {IF BLess(WordWeight(p, third), WordWeight(p, both)) THEN both ELSE third}

RM1Words(m) == {EncRM1(m, [i \in 1..(m+1) |-> b[i]]) : b \in [1..(m+1) -> {0, 1}]}
RM1Table == TLCEval([m \in 1..8 |-> TLCEval(RM1Words(m))])

\* Words tried at a node (only the maximum matters for rm1: its L is 1).
Candidates(leaf, p) ==
  CASE leaf[1] = "rep" -> {[i \in 1..Len(p) |-> b] : b \in {0, 1}}
    [] leaf[1] = "full" -> FourBest(p)
    [] leaf[1] = "rm1" -> RM1Table[leaf[2]]

\* ---- one step: a path is [perm, ws, w]; w is its current likelihood
\* (kept only to order the paths).
Extend(cfg, roots, leaf, free, path) ==
  LET p == TLCEval(NodeSyms(cfg.kind, cfg.m, cfg.r, roots[path.perm], path.ws))
  IN IF free = 0
     THEN LET z == Zeros(Len(p)) IN {[perm |-> path.perm, ws |-> Append(path.ws, z), w |-> WordWeight(p, z)]}
     ELSE {[perm |-> path.perm, ws |-> Append(path.ws, c), w |-> WordWeight(p, c)] : c \in Candidates(leaf, p)}

\* Keep L of the paths: everything clearly better than the L-th best one,
\* and any choice among those that are as good as equal to it.
Kth(S, k) == CHOOSE x \in S : /\ Cardinality({y \in S : BLess(x.w, y.w)}) < k
                              /\ Cardinality({y \in S : ~BLess(y.w, x.w)}) >= k
\* (more ways than are followed; never used as paths)
TooMany == {<<k>> : k \in 1..1000}
Cuts(S, L) ==
  IF Cardinality(S) <= L THEN {S}
  ELSE LET t == TLCEval(Kth(S, L))
           sure == {x \in S : BClearlyLess(t.w, x.w)}
           gone == {x \in S : BClearlyLess(x.w, t.w)}
           tie == S \ (sure \cup gone)
           need == L - Cardinality(sure)
       IN IF need = Cardinality(tie) THEN {sure \cup tie}
          ELSE IF Cardinality(tie) > 12 THEN TooMany
          ELSE {sure \cup T : T \in {U \in SUBSET tie : Cardinality(U) = need}}

Step(cfg, roots, i, paths) ==
  LET leaf == cfg.leaves[i]
      ext == TLCEval(UNION {Extend(cfg, roots, leaf, cfg.mask[i], path) : path \in paths})
  IN IF cfg.mask[i] = 0 THEN {ext} ELSE Cuts(ext, cfg.L)

\* ---- permutations: bit j of a position moves to bit perm[j]
RECURSIVE PermPos(_, _, _)
PermPos(i, perm, j) == IF j > Len(perm) THEN 0
                       ELSE (IF (i \div Pow2[j-1]) % 2 = 1 THEN Pow2[perm[j]] ELSE 0) + PermPos(i, perm, j + 1)
PermTable(perm, m) == TLCEval([i \in 1..Pow2[m] |-> PermPos(i - 1, perm, 1) + 1])
IdPerm(m) == [j \in 1..m |-> j - 1]

\* Code word of a finished path, back in the original order of positions.
PathWord(cfg, path) ==
  LET c == TLCEval(Assemble(cfg.kind, cfg.m, cfg.r, path.ws))
      t == cfg.ptab[path.perm]
      inv == [j \in 1..Len(c) |-> CHOOSE i \in 1..Len(c) : t[i] = j]
  IN [j \in 1..Len(c) |-> c[inv[j]]]
============================================================================
