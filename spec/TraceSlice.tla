----------------------------- MODULE TraceSlice -----------------------------
(***************************************************************************)
(* Several real runs of one parameter file, sliced and observed in         *)
(* different ways: finals[i] = [rc, points] is how run i ended.  All ended *)
(* well with the same counters (property Same of Slice).                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, done
R == Trace[rec]
Ok == /\ Len(R.finals) >= 2 /\ R.finals[1].points # <<>>
      /\ \A i \in 1..Len(R.finals) : R.finals[i].rc = 0 /\ R.finals[i].points = R.finals[1].points
      /\ \A i \in 1..Len(R.finals[1].points) : Len(R.finals[1].points[i]) = 7
Init == rec \in 1..Len(Trace) /\ done = FALSE
Next == ~done /\ Ok /\ PrintT(<<"ACC", R.id>>) /\ done' = TRUE /\ UNCHANGED rec
Spec == Init /\ [][Next]_<<rec, done>>
============================================================================
