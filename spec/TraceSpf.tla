------------------------------ MODULE TraceSpf ------------------------------
(***************************************************************************)
(* Files read by the real code.  Records: [id, t, ...]                     *)
(*  t = "read": fs, name, rc (0 / 1), out (tokens)                         *)
(*  t = "big": files of repeated units, each included at the end of the    *)
(*     one before; parts [unit, count]; a unit ends in a blank or a line   *)
(*     end.  rc, out: parts [unit, count] (tokens)                         *)
(***************************************************************************)
EXTENDS Spf, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, done
R == Trace[rec]
Limit == 140000
Safe == 60000
FsOf(r) == [i \in 1..Len(r.fs) |-> r.fs[i]]
ReadOk == LET x == Read(R.fs, R.name) IN
  IF x.ok THEN \/ R.rc = 0 /\ R.out = x.toks
               \/ \E i \in 1..Len(R.fs) : ~WellPlaced(R.fs[i].text)     \* nothing promised
               \/ \E i \in 1..Len(R.fs) : R.fs[i].text = <<>> /\ R.rc # 0   \* an empty file may be an error
  ELSE R.rc # 0
UnitToks(u) == SplitAll(Raw(u.unit))
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN <<>> ELSE s \o Rep(s, n - 1)
\* count times unit, the same sequence?
Same(u, c, v, d) == c * Len(u) = d * Len(v) /\ (c * Len(u) = 0 \/ Rep(u, Len(v)) = Rep(v, Len(u)))
BigOk ==
  LET parts == R.parts
      size(p) == Len(p.unit) * p.count
      outl(p) == OutLen(UnitToks(p)) * p.count
      total(f(_)) == FoldLeft(LAMBDA a, p : a + f(p), 0, parts)
      right == /\ R.rc = 0 /\ Len(R.out) = Len(parts)
               /\ \A i \in 1..Len(parts) : Same(UnitToks(parts[i]), parts[i].count, R.out[i].unit, R.out[i].count)
  IN IF total(outl) > Limit \/ \E i \in 1..Len(parts) : size(parts[i]) >= Limit THEN R.rc # 0
     ELSE IF total(outl) <= Safe /\ total(size) <= Safe THEN right
     ELSE R.rc # 0 \/ right
\* Neither crashes nor hangs (rc -9).
Ok == R.rc \in {0, 1} /\ IF R.t = "read" THEN ReadOk ELSE BigOk
Init == rec \in 1..Len(Trace) /\ done = FALSE
Next == ~done /\ Ok /\ PrintT(<<"ACC", R.id>>) /\ done' = TRUE /\ UNCHANGED rec
Spec == Init /\ [][Next]_<<rec, done>>
=============================================================================
