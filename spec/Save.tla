-------------------------------- MODULE Save --------------------------------
(***************************************************************************)
(* What saving results means, seen from outside.  Processes accumulate     *)
(* counters per SNR value; a save takes effect at one instant between its  *)
(* call and its return, adding what the process has counted since its last *)
(* effective save; a failed save has no effect; a process that dies during *)
(* a save has had the effect or not.                                       *)
(*                                                                         *)
(* file: has |-> there is a results file, m |-> SNR value -> counters      *)
(* (sequences of naturals of length C).                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Procs, C
VARIABLES file, acc, sav, ph    \* acc, sav: SNR -> counters; ph: "idle", "begun", "done", "dead"
avars == <<file, acc, sav, ph>>
None == [has |-> FALSE, m |-> <<>>]
Empty == <<>>                    \* the function with the empty domain
Zeros == [c \in 1..C |-> 0]
At(m, s) == IF s \in DOMAIN m THEN m[s] ELSE Zeros
Add(a, b) == [s \in DOMAIN a \cup DOMAIN b |-> [c \in 1..C |-> At(a, s)[c] + At(b, s)[c]]]
\* What a has counted beyond b (points without new trials are left alone).
Beyond(a, b) == [s \in {s \in DOMAIN a : a[s] # At(b, s)} |-> [c \in 1..C |-> a[s][c] - At(b, s)[c]]]
\* If the file has gone, nothing counts as saved.
Saved(p) == IF file.has THEN sav[p] ELSE Empty
After(p) == [has |-> TRUE, m |-> Add(file.m, Beyond(acc[p], Saved(p)))]

AInit(f) == file = f /\ acc = [p \in Procs |-> Empty] /\ sav = acc /\ ph = [p \in Procs |-> "idle"]
Count(p, d) == ph[p] = "idle" /\ acc' = [acc EXCEPT ![p] = Add(@, d)] /\ UNCHANGED <<file, sav, ph>>
Begin(p) == ph[p] = "idle" /\ ph' = [ph EXCEPT ![p] = "begun"] /\ UNCHANGED <<file, acc, sav>>
Commit(p) == /\ ph[p] = "begun" /\ ph' = [ph EXCEPT ![p] = "done"]
             /\ file' = After(p) /\ sav' = [sav EXCEPT ![p] = acc[p]] /\ UNCHANGED acc
RetOk(p) == ph[p] = "done" /\ ph' = [ph EXCEPT ![p] = "idle"] /\ UNCHANGED <<file, acc, sav>>
RetFail(p) == ph[p] = "begun" /\ ph' = [ph EXCEPT ![p] = "idle"] /\ UNCHANGED <<file, acc, sav>>
Die(p) == ph[p] \in {"begun", "done"} /\ ph' = [ph EXCEPT ![p] = "dead"] /\ UNCHANGED <<file, acc, sav>>
\* A new process in place of a dead one.
Restart(p) == ph[p] = "dead" /\ ph' = [ph EXCEPT ![p] = "idle"] /\ acc' = [acc EXCEPT ![p] = Empty] /\ sav' = [sav EXCEPT ![p] = Empty] /\ UNCHANGED file
=============================================================================
