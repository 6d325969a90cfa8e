----------------------------- MODULE TraceShip -----------------------------
(***************************************************************************)
(* The parameter and code files that come with the programs mean what      *)
(* their names say.  Records:                                              *)
(*   claim  what the name says: kind "rm"/"polar", m, r (RM), k (polar),   *)
(*          crclen, hex (digits: first entries of the border node mask,    *)
(*          complemented), perm "none"/"one"/"cyclic"/"mCr", L (0: not     *)
(*          said), codec ("": a code file, used by every codec it suits),  *)
(*          base (the name without its ending; <<>> for a code file)       *)
(*   fs, name, toks: the files and what the real reader made of them       *)
(*   obs    per codec: codec, rc, n, k (initialisation), words (messages   *)
(*          and their encodings), back (the messages decoded from those),  *)
(*          rcs (of the decodings)                                         *)
(*   run    the executable ran for a while and was ended: [e, has, wf,     *)
(*          n, k, snrs] of the results file; e FALSE for a code file       *)
(***************************************************************************)
EXTENDS RMCode, Json, IOUtils
PS == INSTANCE Params
CR == INSTANCE Crc
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, done
R == Trace[rec]
C == R.claim
CodecKind(c) == CASE c = "dtrm1" -> "rm1" [] c = "ca_polar_scl" -> "polar" [] OTHER -> "rm0"
Key_code_n == <<99, 111, 100, 101, 95, 110>>
Key_code_k == <<99, 111, 100, 101, 95, 107>>
\* bit i (from 0, highest first) of a sequence of hexadecimal digits
HexBit(h, i) == (h[(i \div 4) + 1] \div Pow2[3 - (i % 4)]) % 2
MaskFrom(h, len) == [i \in 1..len |-> IF i > 4 * Len(h) THEN 1 ELSE 1 - HexBit(h, i - 1)]
Rest(f, n) == {f[i] : i \in n}
\* Permutations of 0..m-1, all different where it matters.
PermsOk(ps, m, r) ==
  LET q == TLCEval(PS!Perms(ps, m)) IN
  /\ \A i \in 1..Len(q) : {q[i][j] : j \in 1..m} = 0..(m - 1)
  /\ CASE C.perm = "none" -> Len(q) = 1 /\ \A j \in 1..m : q[1][j] = j - 1
       [] C.perm = "cyclic" -> Len(q) = m /\ {q[i] : i \in 1..Len(q)} = {[j \in 1..m |-> (j - 1 + s) % m] : s \in 0..(m - 1)}
       \* every choice of r variables exactly once
       [] C.perm = "mCr" -> Len(q) = Binom(m, r) /\ Cardinality({{q[i][j] : j \in (m - r + 1)..m} : i \in 1..Len(q)}) = Binom(m, r)
\* <<length, dimension, mask, crc>> by the name
Params0 == IF C.kind = "rm" THEN MaskFrom(C.hex, Binom(C.m, C.r)) ELSE <<>>
NameOk(ps, codec, cf) ==
  /\ cf.m = C.m
  /\ C.kind = "rm" => cf.r = C.r
  /\ codec = "dtrm_glp" => cf.mask = Params0 /\ PermsOk(ps, C.m, C.r)
  /\ codec \in {"dtrm_glp", "ca_polar_scl"} /\ C.L > 0 => cf.L = C.L
  /\ codec = "ca_polar_scl" => Len(cf.crc) = C.crclen /\ Cardinality({i \in 1..Len(cf.mask) : cf.mask[i] = 1}) - C.crclen = C.k
  /\ PS!Given(ps, Key_code_n) => PS!IntP(ps, Key_code_n, 0) = Pow2[C.m]
  /\ PS!Given(ps, Key_code_k) => C.kind = "rm" /\ PS!IntP(ps, Key_code_k, 0) = Dim("rm0", C.m, C.r, Params0)
UseOk(ps, o) ==
  LET kind == CodecKind(o.codec)
      cf == TLCEval(PS!CodecConf(o.codec, ps))
      rr == IF kind = "polar" THEN 0 ELSE cf.r
      crc == IF kind = "polar" THEN cf.crc ELSE <<>>
      mask == TLCEval(IF o.codec \in {"dtrm_glp", "ca_polar_scl"} THEN cf.mask ELSE [i \in 1..NumLeaves(kind, cf.m, rr) |-> 1])
  IN /\ PS!CodecV(o.codec, ps) = "good" /\ NameOk(ps, o.codec, cf)
     /\ o.rc = 0 /\ o.n = Pow2[cf.m] /\ o.k = Dim(kind, cf.m, rr, mask) - Len(crc)
     /\ Len(o.words) >= 1 /\ Len(o.back) = Len(o.words)
     /\ \A i \in 1..Len(o.words) : /\ o.words[i][2] = Encode(kind, cf.m, rr, mask, CR!AddCrc(o.words[i][1], crc))
                                   /\ o.rcs[i] = 0 /\ o.back[i] = o.words[i][1]
\* results/<base>.srf
Results == <<114, 101, 115, 117, 108, 116, 115, 47>>
Srf == <<46, 115, 114, 102>>
RunOk(ps) ==
  LET cf == PS!SimConf(ps) s == PS!Snrs(ps) IN
  /\ PS!SimV(C.codec, ps) = "good" /\ PS!ResFile(ps) = Results \o C.base \o Srf
  /\ \A i \in 1..(Len(s) - 1) : s[i] < s[i+1]
  /\ R.run.has /\ R.run.wf /\ R.run.n = Pow2[C.m] /\ R.run.k = R.obs[1].k
  \* the points simulated so far, from the first on
  /\ Len(R.run.snrs) >= 1 /\ Len(R.run.snrs) <= Len(s) /\ \A i \in 1..Len(R.run.snrs) : R.run.snrs[i] = s[i]
Ok ==
  LET rd == TLCEval(PS!Read([i \in 1..Len(R.fs) |-> R.fs[i]], R.name)) ps == TLCEval(PS!Pairs(rd.toks)) IN
  /\ rd.ok /\ Len(R.toks) = Len(rd.toks) /\ \A i \in 1..Len(R.toks) : R.toks[i] = rd.toks[i]
  /\ Len(R.obs) >= 1 /\ \A i \in 1..Len(R.obs) : UseOk(ps, R.obs[i])
  /\ R.run.e => RunOk(ps)
Init == rec \in 1..Len(Trace) /\ done = FALSE
Next == ~done /\ Ok = TRUE /\ PrintT(<<"ACC", R.id>>) /\ done' = TRUE /\ UNCHANGED rec
Spec == Init /\ [][Next]_<<rec, done>>
=============================================================================
