---------------------------- MODULE TraceCode ----------------------------
(***************************************************************************)
(* Trace validation of single calls whose result the code itself           *)
(* determines.  Each record is one call (or a pair) of the real code:      *)
(*   enc   encoder: word and dimension of a message                        *)
(*   crc   CRC functions                                                   *)
(*   rt    decoding of an unmodified encoder output                        *)
(*   hard  decoding of a word less than half the minimum distance away     *)
(*   ml    decoding with a list as large as the code (or of RM(1,m)):      *)
(*         no code word is more likely than the result                     *)
(*   list  the list form of the RM(1,m) decoder                            *)
(*   sym   two decodings, of a vector and of the same vector flipped by a  *)
(*         code word (and possibly scaled)                                 *)
(***************************************************************************)
EXTENDS ListDec, Crc, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, done
vars == <<rec, done>>
R == Trace[rec]

IsWord(x, n) == Len(x) = n /\ \A i \in 1..n : x[i] \in {0, 1}
\* The code word of a message, check bits included.
CodeWord(t, x) == Encode(t.kind, t.m, t.r, t.mask, TLCEval(AddCrc(x, t.crc)))
CodeDim(t) == Dim(t.kind, t.m, t.r, t.mask) - Len(t.crc)
Sym(y) == [j \in 1..Len(y) |-> <<BNat(y[j][1]), BNat(y[j][2])>>]
Msgs(k) == {[i \in 1..k |-> f[i]] : f \in [1..k -> {0, 1}]}

\* ---- encoders.  The word must be the recursive one and the one of the
\* generator matrix.
IsDefault(t) == t.kind = "polar" \/ \A i \in 1..Len(t.mask) : t.mask[i] = 1
EncOk(t) ==
  LET k == CodeDim(t) IN
  /\ t.n = Pow2[t.m] /\ t.k = k /\ Len(t.x) = k
  /\ IsWord(t.c, t.n)
  /\ t.c = CodeWord(t, t.x)
  /\ t.m <= 6 => t.c = GenEncode(t.m, MsgLabels(t.kind, t.m, t.r, t.mask), AddCrc(t.x, t.crc))
  /\ t.kind # "polar" /\ (\E i \in 1..k : t.x[i] = 1) => Weight(t.c) >= Pow2[t.m - t.r]
\* Linearity, on the recorded words of two messages and of their sum.
LinOk(t) == VXor(t.c1, t.c2) = t.c3 /\ VXor(t.x1, t.x2) = t.x3

\* ---- CRC
CrcOk(t) == CASE t.fn = "calc" -> t.rc = 0 /\ t.out = Rem(t.x, t.gen)
              [] t.fn = "valid" -> t.rc # -99 /\ (t.rc # 0) = ValidCrc(t.x, t.gen)

\* ---- round trip: the transmitted word is the code word of x
RtOk(t) == t.rc = 0 /\ t.c = CodeWord(t, t.x) /\ t.xd = t.x

\* ---- bounded distance: the received hard word h
HardOk(t) ==
  LET d == Weight(VXor(t.h, Encode(t.kind, t.m, t.r, t.mask, t.x)))
  IN /\ 2 * d < Pow2[t.m - t.r]      \* what was sent is close enough
     /\ t.rc = 0 /\ t.xd = t.x

\* ---- maximum likelihood
MlOk(t) ==
  LET s == TLCEval(Sym(t.y))
      w == TLCEval(WordWeight(s, TLCEval(CodeWord(t, t.xd))))
  IN /\ t.rc = 0 /\ IsWord(t.xd, CodeDim(t))
     /\ \A x \in Msgs(CodeDim(t)) : ~BClearlyLess(w, WordWeight(s, TLCEval(CodeWord(t, x))))

ListOk(t) ==
  LET s == TLCEval(Sym(t.y))
      W(x) == WordWeight(s, EncRM1(t.m, x))
      l == Len(t.xs)
  IN /\ t.rc = 0 /\ l = t.lsiz
     /\ \A i \in 1..l : IsWord(t.xs[i], t.m + 1)
     /\ \A i, j \in 1..l : i # j => t.xs[i] # t.xs[j]
     /\ \A i \in 1..(l - 1) : ~BClearlyLess(W(t.xs[i]), W(t.xs[i+1]))
     /\ \A x \in Msgs(t.m + 1) \ {t.xs[i] : i \in 1..l} : ~BClearlyLess(W(t.xs[l]), W(x))

\* ---- symmetry: y2 is y1 flipped by the code word of msg
SymOk(t) ==
  LET c == CodeWord(t, t.msg) IN
  /\ \A j \in 1..Len(c) : t.y2[j] = (IF c[j] = 0 THEN t.y1[j] ELSE <<t.y1[j][2], t.y1[j][1]>>)
  /\ t.rc1 = t.rc2 /\ t.rc1 \in {0, 1}
  /\ IsWord(t.x1, CodeDim(t)) /\ t.x2 = VXor(t.x1, t.msg)

Ok(t) == CASE t.t = "enc" -> EncOk(t) [] t.t = "lin" -> LinOk(t) [] t.t = "crc" -> CrcOk(t) [] t.t = "rt" -> RtOk(t)
           [] t.t = "hard" -> HardOk(t) [] t.t = "ml" -> MlOk(t) [] t.t = "list" -> ListOk(t)
           [] t.t = "sym" -> SymOk(t)

Init == rec \in 1..Len(Trace) /\ done = FALSE
\* (a value, so that TLC evaluates it instead of enumerating an action)
Next == ~done /\ Ok(R) = TRUE /\ PrintT(<<"ACC", R.id>>) /\ done' = TRUE /\ UNCHANGED rec
Spec == Init /\ [][Next]_vars
============================================================================
