------------------------------ MODULE ResFile ------------------------------
(***************************************************************************)
(* Model check of accumulation: sessions one after another on one file,    *)
(* each with its own list of SNR values, trials and saves in any order.    *)
(* total remembers what all sessions ever simulated and saved.             *)
(***************************************************************************)
EXTENDS Save
CONSTANTS Snrs, MaxTrials
VARIABLES total, unsaved, list
vars == <<avars, total, unsaved, list>>
One(s) == [x \in {s} |-> [c \in 1..C |-> 1]]
Init == AInit(None) /\ total = Empty /\ unsaved = Empty /\ list \in (SUBSET Snrs \ {{}})
Sum(m) == LET RECURSIVE F(_)
              F(S) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN m[s][1] + F(S \ {s}) IN F(DOMAIN m)
p == CHOOSE p \in Procs : TRUE
Trial == Sum(total) + Sum(unsaved) < MaxTrials /\ \E s \in list : Count(p, One(s)) /\ unsaved' = Add(unsaved, One(s)) /\ UNCHANGED <<total, list>>
SaveAct == \/ Begin(p) /\ UNCHANGED <<total, unsaved, list>>
           \/ Commit(p) /\ total' = Add(total, unsaved) /\ unsaved' = Empty /\ UNCHANGED list
           \/ (RetOk(p) \/ RetFail(p)) /\ UNCHANGED <<total, unsaved, list>>
\* The session ends, what was not saved is lost, another one begins.
Session == /\ ph[p] = "idle" /\ acc' = [acc EXCEPT ![p] = Empty] /\ sav' = [sav EXCEPT ![p] = Empty] /\ UNCHANGED <<file, ph, total>>
           /\ unsaved' = Empty /\ list' \in (SUBSET Snrs \ {{}})
Next == Trial \/ SaveAct \/ Session
Spec == Init /\ [][Next]_vars
Exact == file.m = total /\ (file.has \/ total = Empty)
\* A save without new trials changes nothing; no save takes anything away.
Idem == [][unsaved = Empty => file'.m = file.m]_vars
Grows == [][\A s \in DOMAIN file.m : s \in DOMAIN file'.m /\ \A c \in 1..C : file'.m[s][c] >= file.m[s][c]]_vars
=============================================================================
