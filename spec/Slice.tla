------------------------------- MODULE Slice -------------------------------
(***************************************************************************)
(* Two runs of the same simulation in lock step of nothing but the trial   *)
(* outcomes: A is never interrupted, B may return after any trial.  What   *)
(* they count in the end is the same.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS MaxTrn
VARIABLES outs, cfg, curA, ptA, reqA, runA, stA, curB, ptB, reqB, runB, stB, didB
vars == <<outs, cfg, curA, ptA, reqA, runA, stA, curB, ptB, reqB, runB, stB, didB>>
A == INSTANCE SimRun WITH EstAt <- 1, Cap <- 12, cur <- curA, pt <- ptA, req <- reqA, inrun <- runA, status <- stA
B == INSTANCE SimRun WITH EstAt <- 1, Cap <- 12, cur <- curB, pt <- ptB, req <- reqB, inrun <- runB, status <- stB
VA == <<curA, ptA, reqA, runA, stA>>
VB == <<curB, ptB, reqB, runB, stB, didB>>
Outs == {[en |-> 0, er |-> FALSE, mle |-> FALSE], [en |-> 1, er |-> FALSE, mle |-> TRUE], [en |-> 2, er |-> TRUE, mle |-> FALSE]}
Cfgs == {[init |-> i, minerr |-> m, ml |-> TRUE, hd |-> FALSE, k |-> 2, rnd |-> FALSE] : i \in {<<1, 2>>, <<3>>}, m \in {1, 2}}
\* The outcome of a trial depends on its number since the start (the noise
\* stream), not on the calls in between.
RECURSIVE Tot(_, _)
Tot(pt, i) == IF i = 0 THEN 0 ELSE pt[i].trn + Tot(pt, i - 1)
Init == /\ \E c \in Cfgs : A!SInit(c) /\ B!SInit(c)
        /\ outs \in [1..MaxTrn -> Outs] /\ didB = FALSE
O(pt) == outs[Tot(pt, Len(pt)) + 1]
StepA == (A!RunCall \/ A!RetDone \/ (Tot(ptA, Len(ptA)) < MaxTrn /\ A!Trial(O(ptA)))) /\ UNCHANGED <<VB, outs>>
StepB == /\ \/ stB # "done" /\ B!RunCall /\ didB' = FALSE
            \/ B!RetDone /\ UNCHANGED didB
            \/ Tot(ptB, Len(ptB)) < MaxTrn /\ B!Trial(O(ptB)) /\ didB' = TRUE
            \/ didB /\ B!RetMore /\ UNCHANGED didB
         /\ UNCHANGED <<VA, outs>>
\* A first, then B.
Next == IF stA # "done" /\ ENABLED StepA THEN StepA ELSE StepB
Spec == Init /\ [][Next]_vars
Same == stA = "done" /\ stB = "done" => ptA = ptB /\ reqA = reqB
Follows == stA = "done" => \A i \in 1..Len(ptB) : ptB[i].trn <= ptA[i].trn
============================================================================
