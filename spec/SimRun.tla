------------------------------- MODULE SimRun -------------------------------
(***************************************************************************)
(* The simulator as a state machine: which trials it runs, when it moves   *)
(* from one SNR point to the next, what it counts.                         *)
(*                                                                         *)
(* cfg: [init |-> <<trials required initially per point>>, minerr,         *)
(*       ml, hd (evaluate the ML bound, after hard decisions),             *)
(*       k (message length), rnd (random messages)]                        *)
(* EstAt: with more errors than this the number of trials still needed is  *)
(* estimated; Cap: upper limit of requirements.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS EstAt, Cap
VARIABLES cfg,     \* the configuration
          cur,     \* point of the last trial (the first one at the start)
          pt,      \* counters per point
          req,     \* trials required per point, as of now
          inrun,   \* the main loop is running
          status   \* "new", "more" (returned before the end), "done", "failed"
svars == <<cfg, cur, pt, req, inrun, status>>

N == Len(cfg.init)
Zero == [trn |-> 0, ebit |-> 0, ebl |-> 0, er |-> 0, trnml |-> 0, eml |-> 0]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

SInit(c) == /\ cfg = c /\ cur = 1
            /\ pt = [i \in 1..Len(c.init) |-> Zero] /\ req = c.init
            /\ inrun = FALSE /\ status = "new"

\* The first point from i on that still needs trials.
RECURSIVE Adv(_)
Adv(i) == IF i > N THEN i ELSE IF pt[i].trn < req[i] THEN i ELSE Adv(i + 1)

\* What one trial adds.  out: [en (wrong bits), er (erasure), mle (the decision
\* is strictly closer to the received vector than the transmitted word)]
Count(p, out) ==
  LET evalml == cfg.ml /\ ~out.er IN
  [trn |-> p.trn + 1, ebit |-> p.ebit + out.en, ebl |-> p.ebl + (IF out.en > 0 THEN 1 ELSE 0),
   er |-> p.er + (IF out.er THEN 1 ELSE 0), trnml |-> p.trnml + (IF evalml THEN 1 ELSE 0),
   eml |-> p.eml + (IF evalml /\ out.mle THEN 1 ELSE 0)]

\* The requirement after a trial that made the counters p: while too few errors
\* were seen it grows, to the expected number of trials once that can be
\* estimated, else to one and a half times the trials done; it is never set
\* below what was required initially.
NewReq(i, p, r) ==
  IF p.ebl >= cfg.minerr THEN r
  ELSE IF p.ebl > EstAt THEN Max(cfg.init[i], Min((2 * p.trn * cfg.minerr + p.ebl) \div (2 * p.ebl), Cap))
  ELSE IF p.trn > r \div 2 THEN Max(cfg.init[i], Min((3 * p.trn + 1) \div 2, Cap))
  ELSE r

RunCall == ~inrun /\ status # "failed" /\ inrun' = TRUE /\ UNCHANGED <<cfg, cur, pt, req, status>>
Trial(out) ==
  LET i == Adv(cur) IN
  /\ inrun /\ status # "failed" /\ i <= N
  /\ cur' = i
  /\ pt' = [pt EXCEPT ![i] = Count(pt[i], out)]
  /\ req' = [req EXCEPT ![i] = NewReq(i, Count(pt[i], out), req[i])]
  /\ UNCHANGED <<cfg, inrun, status>>
\* A decoding error ends the run with an error; the counters of trials before
\* it stay (whether the failed trial is counted is left open).
TrialError ==
  LET i == Adv(cur) IN
  /\ inrun /\ status # "failed" /\ i <= N /\ cur' = i /\ status' = "failed"
  /\ \E c \in {0, 1} : pt' = [pt EXCEPT ![i].trn = @ + c]
  /\ UNCHANGED <<cfg, req, inrun>>
RetDone == inrun /\ status # "failed" /\ Adv(cur) > N /\ inrun' = FALSE /\ status' = "done" /\ cur' = N + 1 /\ UNCHANGED <<cfg, pt, req>>
\* The interval has elapsed; only after a trial.
RetMore == inrun /\ status # "failed" /\ inrun' = FALSE /\ status' = "more" /\ UNCHANGED <<cfg, cur, pt, req>>
RetFail == inrun /\ status = "failed" /\ inrun' = FALSE /\ UNCHANGED <<cfg, cur, pt, req, status>>

\* User control between calls, of the current point.
Ctl(code) ==
  /\ ~inrun /\ UNCHANGED <<cfg, cur, pt, inrun, status>>
  /\ IF cur > N THEN UNCHANGED req
     ELSE LET r == req[cur] t == pt[cur].trn IN
          req' = [req EXCEPT ![cur] = CASE code = 1 -> IF r >= Cap THEN r ELSE IF r \div 2 >= Cap - r THEN Cap ELSE r + r \div 2
                                        [] code = 2 -> Max(r - r \div 3, t)
                                        [] code = 3 -> t]

\* ---- what must always hold
Sane ==
  \A i \in 1..N : LET p == pt[i] IN
    /\ p.ebl <= p.trn /\ p.er <= p.trn /\ p.ebl <= p.ebit /\ p.ebit <= p.ebl * cfg.k
    /\ (status # "failed" => p.trnml = (IF cfg.ml THEN p.trn - p.er ELSE 0)) /\ p.eml <= p.trnml
\* A point is left only when its rule is met (touched: the user lowered it).
LeftOk(touched) ==
  \A i \in 1..N : i < cur /\ i \notin touched => pt[i].trn >= cfg.init[i] /\ pt[i].ebl >= cfg.minerr
Floor(touched) == \A i \in 1..N : i \notin touched => req[i] >= cfg.init[i]
DoneOk == status = "done" => \A i \in 1..N : pt[i].trn >= req[i]
Later == \A i \in 1..N : i > cur => pt[i] = Zero
=============================================================================
