------------------------------ MODULE TraceInit ------------------------------
(***************************************************************************)
(* Initialisation with arbitrary parameters.  Records:                     *)
(*  t = "codec": codec, toks, rc (0 accepted, other: refused, -9: crashed  *)
(*      or did not answer), n, k, use: what happened in use when accepted: *)
(*      [op "enc"/"dec", rc, len, good (symbols that are proper)]          *)
(*  t = "sim": codec, fs, name, rc, run (return code of the run, of the    *)
(*      save), kept (an existing results file was left alone)              *)
(***************************************************************************)
EXTENDS RMCode, Json, IOUtils
PS == INSTANCE Params
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, done
R == Trace[rec]
CodecKind(c) == CASE c = "dtrm1" -> "rm1" [] c = "ca_polar_scl" -> "polar" [] OTHER -> "rm0"
RECURSIVE DimBy(_, _, _)
\* Dimension without listing the nodes (the mask is all ones).
DimBy(m, r, i) == IF i < 0 THEN 0 ELSE Binom(m, i) + DimBy(m, r, i - 1)
Ones(b, n) == Cardinality({i \in 1..n : b[i] = 1})
SizeOk(codec, c) ==
  /\ R.n = 2^c.m
  /\ CASE codec \in {"dtrm0", "dtrm1"} -> R.k = DimBy(c.m, c.r, c.r)
       [] codec = "ca_polar_scl" -> R.k = Ones(c.mask, R.n) - Len(c.crc)
       [] codec = "dtrm_glp" -> (Ones(c.mask, Binom(c.m, c.r)) = Binom(c.m, c.r) => R.k = DimBy(c.m, c.r, c.r))
                                /\ (c.m <= 8 => R.k = Dim("rm0", c.m, c.r, c.mask))
UseOk(u) == u.good = u.len /\ u.len = (IF u.op = "enc" THEN R.n ELSE R.k) /\ (IF u.op = "enc" THEN u.rc >= 0 ELSE u.rc \in {0, 1})
CodecOk ==
  LET ps == TLCEval(PS!Pairs(R.toks)) v == PS!CodecV(R.codec, ps) IN
  /\ R.rc # -9
  /\ v = "good" => R.rc = 0 /\ SizeOk(R.codec, PS!CodecConf(R.codec, ps))
  /\ v = "bad" => R.rc # 0
  /\ R.rc = 0 => R.k >= 1 /\ \A i \in 1..Len(R.use) : UseOk(R.use[i])
  /\ PrintT(<<"VERDICT", v>>)
SimOk ==
  LET rd == TLCEval(PS!Read([i \in 1..Len(R.fs) |-> R.fs[i]], R.name))
      v == IF rd.ok THEN PS!SimV(R.codec, TLCEval(PS!Pairs(rd.toks))) ELSE "bad"
  IN /\ R.rc # -9
     /\ v = "good" => R.rc = 0 /\ R.run = <<0, 0>>
     /\ v = "bad" => R.rc # 0 /\ R.kept
     /\ PrintT(<<"VERDICT", v>>)
Ok == IF R.t = "codec" THEN CodecOk ELSE SimOk
Init == rec \in 1..Len(Trace) /\ done = FALSE
Next == ~done /\ Ok /\ PrintT(<<"ACC", R.id>>) /\ done' = TRUE /\ UNCHANGED rec
Spec == Init /\ [][Next]_<<rec, done>>
==============================================================================
