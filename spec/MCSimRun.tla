------------------------------ MODULE MCSimRun ------------------------------
EXTENDS SimRun
CONSTANTS MaxTrn, Controls, Long
VARIABLES touched, more
vars == <<svars, touched, more>>
\* Long: more trials of fewer kinds.
Cfgs == IF Long THEN {[init |-> i, minerr |-> m, ml |-> FALSE, hd |-> FALSE, k |-> 2, rnd |-> FALSE] : i \in {<<a, b>> : a \in 1..9, b \in {1, 7}}, m \in 1..4}
        ELSE {[init |-> i, minerr |-> m, ml |-> b, hd |-> FALSE, k |-> 2, rnd |-> FALSE] : i \in {<<1, 2>>, <<2, 1>>, <<3>>}, m \in {1, 2, 3}, b \in BOOLEAN}
Outs == {[en |-> e, er |-> x, mle |-> d] : e \in {0, 2}, x \in IF Long THEN {FALSE} ELSE BOOLEAN, d \in IF Long THEN {FALSE} ELSE BOOLEAN}
Init == (\E c \in Cfgs : SInit(c)) /\ touched = {} /\ more = FALSE
Bound == \A i \in 1..N : pt[i].trn < MaxTrn
T == \E o \in Outs : (~o.er \/ ~o.mle) /\ Trial(o)
Next == \/ (RunCall \/ RetDone \/ RetFail) /\ UNCHANGED touched /\ more' = FALSE
        \/ more /\ RetMore /\ UNCHANGED touched /\ more' = FALSE
        \/ Bound /\ (T \/ TrialError) /\ UNCHANGED touched /\ more' = TRUE
        \/ Controls /\ \E c \in 1..3 : Ctl(c) /\ more' = more /\ touched' = (IF c = 1 THEN touched ELSE touched \cup {cur})
Spec == Init /\ [][Next]_vars
\* Every trial an error: the simulation ends.
Err == [en |-> 1, er |-> FALSE, mle |-> FALSE]
ErrNext == \/ RunCall /\ UNCHANGED <<touched, more>>
           \/ Trial(Err) /\ more' = TRUE /\ UNCHANGED touched
           \/ RetDone /\ UNCHANGED <<touched, more>>
AllErr == Init /\ [][ErrNext]_vars /\ WF_vars(ErrNext)
Ends == <>(status = "done")
Left == LeftOk(touched)
AtLeast == Floor(touched)
\* Nothing is simulated beyond the requirement, which itself only grows while
\* too few errors were seen.
NoExtra == [][\A i \in 1..N : pt'[i].trn > pt[i].trn => pt[i].trn < req[i] /\ pt'[i].trn = pt[i].trn + 1]_vars
Grows == [][\A i \in 1..N : inrun /\ req'[i] # req[i] => pt'[i].ebl < cfg.minerr /\ req'[i] > pt'[i].trn]_vars
CurMono == [][cur' >= cur]_vars
=============================================================================
