------------------------------ MODULE SaveProto ------------------------------
(***************************************************************************)
(* The save protocol as file operations: take the busy flag by exclusive   *)
(* creation (waiting a bounded number of times), read the old results,     *)
(* write the merged ones to a temporary file piece by piece, rename it     *)
(* over the results file, remove the flag.  Any operation can fail, a      *)
(* process can die between any two of them (or in the middle of a write),  *)
(* and processes are interleaved arbitrarily.  The user removes the flag   *)
(* of a dead process only.                                                 *)
(*                                                                         *)
(* It refines Save (property Abs).  Variants that drop one of the          *)
(* precautions do not: SaveProtoBad*.cfg (checked to fail).                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Procs, C, Snrs, MaxCount, MaxFaults, MaxDeaths, Tries,
          Excl,      \* the flag is created exclusively
          Tmp,       \* results are written to a temporary file
          Release    \* the flag is removed when saving fails
VARIABLES res,      \* the results file: [has, m, ok] (ok: completely written)
          tmp,      \* the temporary file, likewise
          flag,     \* "none" or the process which holds the busy flag
          pc, old, tries, acc, sav, counts, faults, deaths, com
vars == <<res, tmp, flag, pc, old, tries, acc, sav, counts, faults, deaths, com>>
S == INSTANCE Save WITH file <- [has |-> res.has, m |-> res.m],
       ph <- [p \in Procs |-> CASE pc[p] = "idle" -> "idle" [] pc[p] = "dead" -> "dead"
                                [] com[p] -> "done" [] OTHER -> "begun"]
NoFile == [has |-> FALSE, m |-> <<>>, ok |-> TRUE]
Init == /\ res = NoFile /\ tmp = NoFile /\ flag = "none"
        /\ pc = [p \in Procs |-> "idle"] /\ old = [p \in Procs |-> NoFile] /\ tries = [p \in Procs |-> 0]
        /\ acc = [p \in Procs |-> <<>>] /\ sav = acc /\ counts = 0 /\ faults = 0 /\ deaths = 0
        /\ com = [p \in Procs |-> FALSE]
Go(p, l) == pc' = [pc EXCEPT ![p] = l]
Count(p) == /\ pc[p] = "idle" /\ counts < MaxCount /\ counts' = counts + 1
            /\ \E s \in Snrs : acc' = [acc EXCEPT ![p] = S!Add(@, [x \in {s} |-> [c \in 1..C |-> 1]])]
            /\ UNCHANGED <<res, tmp, flag, pc, old, tries, sav, faults, deaths, com>>
Begin(p) == /\ pc[p] = "idle" /\ acc[p] # sav[p] /\ Go(p, "lock") /\ tries' = [tries EXCEPT ![p] = 0] /\ com' = [com EXCEPT ![p] = FALSE]
            /\ UNCHANGED <<res, tmp, flag, old, acc, sav, counts, faults, deaths>>
Lock(p) == /\ pc[p] = "lock"
           /\ IF flag = "none" \/ ~Excl THEN flag' = p /\ Go(p, "read") /\ UNCHANGED tries
              ELSE /\ UNCHANGED flag /\ tries' = [tries EXCEPT ![p] = @ + 1]
                   /\ Go(p, IF tries[p] + 1 >= Tries THEN "fail" ELSE "lock")
           /\ UNCHANGED <<res, tmp, old, acc, sav, counts, faults, deaths, com>>
Read(p) == /\ pc[p] = "read" /\ old' = [old EXCEPT ![p] = res] /\ Go(p, IF Tmp THEN "open" ELSE "write")
           /\ UNCHANGED <<res, tmp, flag, tries, acc, sav, counts, faults, deaths, com>>
New(p) == S!Add(old[p].m, S!Beyond(acc[p], IF old[p].has THEN sav[p] ELSE <<>>))
Open(p) == /\ pc[p] = "open" /\ tmp' = [has |-> TRUE, m |-> <<>>, ok |-> FALSE] /\ Go(p, "fill")
           /\ UNCHANGED <<res, flag, old, tries, acc, sav, counts, faults, deaths, com>>
Fill(p) == /\ pc[p] = "fill" /\ tmp' = [has |-> TRUE, m |-> New(p), ok |-> TRUE] /\ Go(p, "ren")
           /\ UNCHANGED <<res, flag, old, tries, acc, sav, counts, faults, deaths, com>>
Ren(p) == /\ pc[p] = "ren" /\ tmp.has /\ res' = tmp /\ tmp' = NoFile /\ Go(p, "unlock") /\ com' = [com EXCEPT ![p] = TRUE]
          /\ sav' = [sav EXCEPT ![p] = acc[p]]
          /\ UNCHANGED <<flag, old, tries, acc, counts, faults, deaths>>
\* Writing in place (variant): first truncated, then filled.
Write(p) == /\ pc[p] = "write" /\ res' = [has |-> TRUE, m |-> <<>>, ok |-> FALSE] /\ Go(p, "write2")
            /\ UNCHANGED <<tmp, flag, old, tries, acc, sav, counts, faults, deaths, com>>
Write2(p) == /\ pc[p] = "write2" /\ res' = [has |-> TRUE, m |-> New(p), ok |-> TRUE] /\ Go(p, "unlock") /\ com' = [com EXCEPT ![p] = TRUE]
             /\ sav' = [sav EXCEPT ![p] = acc[p]]
             /\ UNCHANGED <<tmp, flag, old, tries, acc, counts, faults, deaths>>
Unlock(p) == /\ pc[p] \in {"unlock", "back"} /\ flag' = "none" /\ Go(p, IF pc[p] = "unlock" THEN "idle" ELSE "fail")
             /\ UNCHANGED <<res, tmp, old, tries, acc, sav, counts, faults, deaths, com>>
Fail(p) == /\ pc[p] = "fail" /\ Go(p, "idle")
           /\ UNCHANGED <<res, tmp, flag, old, tries, acc, sav, counts, faults, deaths, com>>
\* An operation fails.
Fault(p) == /\ faults < MaxFaults /\ faults' = faults + 1
            /\ \/ pc[p] = "lock" /\ Go(p, "fail") /\ UNCHANGED tmp
               \/ pc[p] = "read" /\ Go(p, IF Release THEN "back" ELSE "fail") /\ UNCHANGED tmp
               \/ pc[p] \in {"open", "fill", "ren"} /\ Go(p, IF Release THEN "back" ELSE "fail") /\ tmp' = NoFile
            /\ UNCHANGED <<res, flag, old, tries, acc, sav, counts, deaths, com>>
Die(p) == /\ pc[p] \notin {"idle", "dead"} /\ deaths < MaxDeaths /\ deaths' = deaths + 1 /\ Go(p, "dead")
          /\ UNCHANGED <<res, tmp, flag, old, tries, acc, sav, counts, faults, com>>
\* The user removes the flag a dead process left and starts it again.
Restart(p) == /\ pc[p] = "dead" /\ Go(p, "idle") /\ flag' = (IF flag = p THEN "none" ELSE flag)
              /\ acc' = [acc EXCEPT ![p] = <<>>] /\ sav' = [sav EXCEPT ![p] = <<>>]
              /\ UNCHANGED <<res, tmp, old, tries, counts, faults, deaths, com>>
Step(p) == Begin(p) \/ Lock(p) \/ Read(p) \/ Open(p) \/ Fill(p) \/ Ren(p) \/ Write(p) \/ Write2(p) \/ Unlock(p) \/ Fail(p)
Next == \E p \in Procs : Count(p) \/ Step(p) \/ Fault(p) \/ Die(p) \/ Restart(p)
Spec == Init /\ [][Next]_vars
\* Nobody is stuck for ever.
Fair == Spec /\ \A p \in Procs : WF_vars(Step(p)) /\ WF_vars(Restart(p))

AStep == \E p \in Procs : S!Begin(p) \/ S!Commit(p) \/ S!RetOk(p) \/ S!RetFail(p) \/ S!Die(p) \/ S!Restart(p) \/ \E s \in Snrs : S!Count(p, [x \in {s} |-> [c \in 1..C |-> 1]])
Abs == S!AInit(S!None) /\ [][AStep]_(S!avars)
\* What is there at any time is a completely written file.
Whole == res.ok
Mutex == Cardinality({p \in Procs : pc[p] \in {"read", "open", "fill", "ren", "write", "write2"}}) <= 1
\* When nobody is saving and nobody is dead, the flag is free.
Free == (\A p \in Procs : pc[p] \in {"idle", "lock"}) => flag = "none"
\* Everything counted by effective saves is in the file, exactly once.
RECURSIVE Tot(_)
Tot(P) == IF P = {} THEN <<>> ELSE LET p == CHOOSE p \in P : TRUE IN S!Add(sav[p], Tot(P \ {p}))
Once == deaths = 0 => \A s \in Snrs : S!At(res.m, s) = S!At(Tot(Procs), s)
Returns == \A p \in Procs : pc[p] = "lock" ~> pc[p] = "idle"
=============================================================================
