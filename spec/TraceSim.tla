------------------------------ MODULE TraceSim ------------------------------
(***************************************************************************)
(* Recorded runs of the real simulator with the scripted codec.            *)
(* A record: [id, cfg, events, snr].  snr[i]: the configured SNR value in  *)
(* millionths of a dB.  Events ("e"):                                      *)
(*   run                 sim_run is called                                 *)
(*   cs v                the SNR number is given to the codec              *)
(*   sg                  sigma is given to the codec                       *)
(*   dec                 a decoder call: encs (messages encoded since the  *)
(*                       last decoder call, in order), rc, xd (decision),  *)
(*                       y (received vector in units of 2^-20, of 2^-13 if k > 16)             *)
(*   ret rc              sim_run returns                                   *)
(*   ctl code            sim_control                                       *)
(*   state               the status line: snr (hundredths), i, n, trn,     *)
(*                       req, en, ml (-1 if not shown)                     *)
(*   file                the results file right after a save which         *)
(*                       returned rc = 0 and which nobody else writes:     *)
(*                       points [snr, trn, ebit, ebl, er, trnml, eml]      *)
(***************************************************************************)
EXTENDS SimRun, Json, IOUtils, TLC, Integers, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, pos, ann, did
tvars == <<svars, rec, pos, ann, did>>
R == Trace[rec]
E == R.events[pos]
Bits(b, k) == Len(b) = k /\ \A i \in 1..k : b[i] \in {0, 1}

\* The scripted codec's code.
RECURSIVE Par(_, _)
Par(x, c) == IF c = 0 \/ x = <<>> THEN 0 ELSE ((x[1] * (c % 2)) + Par(Tail(x), c \div 2)) % 2
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Word(x) ==
  IF cfg.k > 16 THEN [j \in 1..cfg.n |-> (x[((j - 1) % cfg.k) + 1] + (IF j > cfg.k THEN x[((3 * (j - 1) + 1) % cfg.k) + 1] ELSE 0)) % 2]
  ELSE [j \in 1..cfg.n |-> Par(x, ((j - 1) % (P2(cfg.k) - 1)) + 1)]

Sent == IF cfg.rnd THEN (IF E.encs = <<>> THEN <<>> ELSE E.encs[Len(E.encs)]) ELSE [i \in 1..cfg.k |-> 0]
Wrong(x) == Cardinality({i \in 1..cfg.k : x[i] # E.xd[i]})
\* Twice the correlation difference: the decision is closer to the received
\* vector than the sent word if the sum over the differing symbols of
\* (sent symbol * received value) is negative.
RECURSIVE Corr(_, _, _)
Corr(w, v, j) == IF j = 0 THEN 0 ELSE
  Corr(w, v, j - 1) + (IF w[j] = v[j] THEN 0
                       ELSE LET y == IF cfg.hd THEN (IF E.y[j] > 0 THEN 1 ELSE -1) ELSE E.y[j] IN IF w[j] = 1 THEN y ELSE -y)
Mle(x) == LET c == Corr(Word(x), Word(E.xd), cfg.n) IN
  IF Wrong(x) = 0 THEN {FALSE} ELSE IF cfg.hd THEN {c < 0}
  ELSE IF c < -2 * cfg.n THEN {TRUE} ELSE IF c > 2 * cfg.n THEN {FALSE} ELSE BOOLEAN

TInit == /\ rec \in 1..Len(Trace) /\ pos = 1 /\ ann = [cs |-> -1, sg |-> FALSE] /\ did = FALSE /\ SInit(Trace[rec].cfg)
Keep == UNCHANGED <<ann, did>>

TRun == E.e = "run" /\ RunCall /\ did' = FALSE /\ UNCHANGED ann
TCs == E.e = "cs" /\ inrun /\ ann' = [cs |-> E.v, sg |-> FALSE] /\ UNCHANGED <<svars, did>>
TSg == E.e = "sg" /\ inrun /\ ann' = [ann EXCEPT !.sg = TRUE] /\ UNCHANGED <<svars, did>>
TDec == /\ E.e = "dec"
        /\ Bits(Sent, cfg.k) /\ Bits(E.xd, cfg.k) /\ Len(E.y) = cfg.n
        /\ ann.cs = Adv(cur) - 1 /\ ann.sg     \* the decoder knows which point this is
        /\ IF E.rc < 0 THEN TrialError
           ELSE \E d \in Mle(Sent) : Trial([en |-> Wrong(Sent), er |-> E.rc = 1, mle |-> d])
        /\ did' = TRUE /\ UNCHANGED ann
TRet == /\ E.e = "ret" /\ Keep
        /\ IF E.rc < 0 THEN RetFail ELSE IF E.rc = 0 THEN RetDone ELSE did /\ RetMore
TCtl == E.e = "ctl" /\ Ctl(E.code) /\ Keep
Near(a, b) == a - b <= 1 /\ b - a <= 1
TState == /\ E.e = "state" /\ ~inrun /\ UNCHANGED <<svars, ann, did>>
          /\ LET i == Min(cur, N) IN
             /\ Near(E.snr, R.snr[i] \div 10000)
             /\ E.i = i /\ E.n = N /\ E.trn = pt[i].trn /\ E.req = req[i] /\ E.en = pt[i].ebl
             /\ E.ml = (IF cfg.ml THEN pt[i].eml ELSE -1)
\* The file has the points simulated so far, in ascending order, no other.
Row(i) == <<R.snr[i], pt[i].trn, pt[i].ebit, pt[i].ebl, pt[i].er, pt[i].trnml, pt[i].eml>>
TFile == /\ E.e = "file" /\ ~inrun /\ UNCHANGED <<svars, ann, did>> /\ E.rc = 0
         /\ {E.points[j] : j \in 1..Len(E.points)} = {Row(i) : i \in {i \in 1..N : pt[i].trn > 0}}
         /\ \A j \in 1..(Len(E.points) - 1) : E.points[j][1] < E.points[j+1][1]
TNext == /\ pos <= Len(R.events) /\ pos' = pos + 1 /\ UNCHANGED rec
         /\ (TRun \/ TCs \/ TSg \/ TDec \/ TRet \/ TCtl \/ TState \/ TFile)
         /\ pos = Len(R.events) => PrintT(<<"ACC", R.id>>)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
