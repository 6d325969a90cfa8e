------------------------------ MODULE TraceSame ------------------------------
(***************************************************************************)
(* Parameter texts that mean the same must behave the same.  Records:      *)
(*  t = "codec": codec, toks (list of token lists), obs (per list: rc, n,  *)
(*      k, words: [x, y] pairs encoded, and the rest of what was observed) *)
(*  t = "sim": codec, fss (per variant: fs, name), obs                     *)
(***************************************************************************)
EXTENDS RMCode, Json, IOUtils
PS == INSTANCE Params
CR == INSTANCE Crc
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, done
R == Trace[rec]
AllSame(f, n) == \A i \in 2..n : f[i] = f[1]

CodecKind(c) == CASE c = "dtrm1" -> "rm1" [] c = "ca_polar_scl" -> "polar" [] OTHER -> "rm0"
\* Length, dimension and code words are those of the configuration.
CodeOk(codec, c, o) ==
  LET kind == CodecKind(codec)
      rr == IF codec = "ca_polar_scl" THEN 0 ELSE c.r
      crc == IF codec = "ca_polar_scl" THEN c.crc ELSE <<>>
      mask == IF codec \in {"dtrm_glp", "ca_polar_scl"} THEN c.mask ELSE [i \in 1..NumLeaves(kind, c.m, rr) |-> 1]
  IN /\ o.rc = 0 /\ o.n = Pow2[c.m] /\ o.k = Dim(kind, c.m, rr, mask) - Len(crc)
     /\ \A i \in 1..Len(o.words) : o.words[i][2] = Encode(kind, c.m, rr, mask, CR!AddCrc(o.words[i][1], crc))
CodecOk ==
  LET n == Len(R.toks)
      conf == TLCEval([i \in 1..n |-> PS!CodecConf(R.codec, PS!Pairs(R.toks[i]))])
  IN AllSame(conf, n) /\ AllSame(R.obs, n) /\ Len(R.obs) = n /\ CodeOk(R.codec, conf[1], R.obs[1])

SimOk ==
  LET n == Len(R.fss)
      rd == TLCEval([i \in 1..n |-> PS!Read([j \in 1..Len(R.fss[i].fs) |-> R.fss[i].fs[j]], R.fss[i].name)])
      ps == TLCEval([i \in 1..n |-> PS!Pairs(rd[i].toks)])
      conf == TLCEval([i \in 1..n |-> <<PS!SimConf(ps[i]), PS!Snrs(ps[i]), PS!MicroOf(PS!RateWord(ps[i])), PS!ResFile(ps[i]),
                                        IF R.codec = "mock" THEN <<>> ELSE PS!CodecConf(R.codec, ps[i])>>])
  IN (\A i \in 1..n : rd[i].ok) /\ AllSame(conf, n) /\ AllSame(R.obs, n) /\ Len(R.obs) = n /\ R.obs[1].ok

Ok == IF R.t = "codec" THEN CodecOk ELSE SimOk
Init == rec \in 1..Len(Trace) /\ done = FALSE
Next == ~done /\ Ok /\ PrintT(<<"ACC", R.id>>) /\ done' = TRUE /\ UNCHANGED rec
Spec == Init /\ [][Next]_<<rec, done>>
==============================================================================
