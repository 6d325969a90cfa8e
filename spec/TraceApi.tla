----------------------------- MODULE TraceApi -----------------------------
(***************************************************************************)
(* Recorded call sequences of the real codecs against Api.  A record is    *)
(*   [t |-> "seq", id, ref, calls]: calls[i] = [op, s, a, rc, out, kept,   *)
(*   mem] where mem is whether exactly the memory of before the first      *)
(*   call is allocated (only judged when no slot is open);                 *)
(*   ref[cfg][op][ch][i] (ch+1 for dec) is the result of that call alone   *)
(*   in a process of its own, recorded several times with different        *)
(*   contents of fresh memory: they all must agree too.                    *)
(***************************************************************************)
EXTENDS Api, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, pos
R == Trace[rec]
C == R.calls[pos]
TInit == Init /\ rec \in 1..Len(Trace) /\ pos = 1

\* The results a fresh process gives for this call; all must be the same.
RefOf(k) == R.ref[k[2]][k[1]][k[3] + 1][k[4]]
Same(k) == LET f == RefOf(k) IN
  /\ \A j \in 1..Len(f) : f[j] = f[1]
  /\ C.rc = f[1].rc /\ C.out = f[1].out /\ C.kept = 1 /\ f[1].kept = 1
Idle == \A s \in Slots : ~slot'[s].open
Step ==
  /\ pos <= Len(R.calls)
  /\ CASE C.op = "init" -> Open(C.s, C.a) /\ C.rc = 0
       [] C.op = "chan" -> Chan(C.s, C.a)
       [] C.op = "enc" -> Enc(C.s, C.a) /\ Same(Key("enc", C.s, C.a))
       [] C.op = "dec" -> Dec(C.s, C.a) /\ Same(Key("dec", C.s, C.a))
       [] C.op = "bad" -> Bad(C.s, C.a) /\ C.rc # 0
       [] C.op = "close" -> Close(C.s)
  /\ Idle => C.mem = 1
  /\ pos' = pos + 1 /\ UNCHANGED rec
  /\ pos = Len(R.calls) => PrintT(<<"ACC", R.id>>)
TSpec == TInit /\ [][Step]_<<vars, rec, pos>>
============================================================================
