------------------------------ MODULE TraceRes ------------------------------
(***************************************************************************)
(* Recorded histories of simulations on one results file, one session      *)
(* after another, each trial followed through SimRun, each save through    *)
(* the meaning of Save.  Record: cfg, snr (of the first session), old      *)
(* (rows of the results file at the start, has), events of TraceSim and    *)
(*   start cfg snr      a new session (the one before is over)             *)
(*   gone               the results file is deleted by hand                *)
(*   save rc has wf rows n k rates table                                   *)
(*       sim_save_res returned; the results file now: rows <<snr,          *)
(*       counters>> in order, wf: well-formed, n, k: code_n, code_k,       *)
(*       rates: <<WER, ERR, MLER>> per row, table: <<snr, BER, WER, ERR,   *)
(*       MLER>> per row of the comment table.  A rate is <<M, e>> for the  *)
(*       decimal M * 10^-e (e is its last printed place)                   *)
(*   res ml rows        the result string: <<snr, BER, WER[, MLER]>>       *)
(***************************************************************************)
EXTENDS TraceSim, Rates
VARIABLES snrs, file, sav
rvars == <<tvars, snrs, file, sav>>
CC == 6
Zeros == [c \in 1..CC |-> 0]
Cnt(p) == <<p.trn, p.ebit, p.ebl, p.er, p.trnml, p.eml>>
MapOf(rows) == [s \in {rows[i][1] : i \in 1..Len(rows)} |-> LET r == rows[CHOOSE i \in 1..Len(rows) : rows[i][1] = s] IN [c \in 1..CC |-> r[c + 1]]]
RECURSIVE SumTo(_, _, _)
\* Counters at SNR value s of the points with numbers up to i beyond b (the
\* same value may be simulated by several points).
SumTo(s, b, i) == IF i = 0 THEN Zeros ELSE
  LET r == SumTo(s, b, i - 1) IN IF snrs[i] # s THEN r ELSE [c \in 1..CC |-> r[c] + Cnt(pt[i])[c] - b[i][c]]
NoSav == [i \in 1..N |-> Zeros]
SavedNow == IF file.has THEN sav ELSE NoSav
Touched == {snrs[i] : i \in {i \in 1..N : Cnt(pt[i]) # SavedNow[i]}}
At(m, s) == IF s \in DOMAIN m THEN m[s] ELSE Zeros
Merged == [s \in DOMAIN file.m \cup Touched |-> LET a == At(file.m, s) d == SumTo(s, SavedNow, N) IN [c \in 1..CC |-> a[c] + d[c]]]
TooMany == Cardinality(DOMAIN Merged) > 50

RInit == TInit /\ snrs = R.snr /\ sav = NoSav /\ file = (IF R.old.has THEN [has |-> TRUE, m |-> MapOf(R.old.rows)] ELSE [has |-> FALSE, m |-> <<>>])
RStart == /\ E.e = "start" /\ ~inrun
          /\ cfg' = E.cfg /\ snrs' = E.snr /\ cur' = 1 /\ pt' = [i \in 1..Len(E.cfg.init) |-> Zero] /\ req' = E.cfg.init
          /\ inrun' = FALSE /\ status' = "new" /\ ann' = [cs |-> -1, sg |-> FALSE] /\ did' = FALSE
          /\ sav' = [i \in 1..Len(E.cfg.init) |-> Zeros] /\ UNCHANGED file
RGone == E.e = "gone" /\ file' = [has |-> FALSE, m |-> <<>>] /\ UNCHANGED <<svars, ann, did, snrs, sav>>
RSave ==
  /\ E.e = "save" /\ ~inrun /\ UNCHANGED <<svars, ann, did, snrs>>
  /\ IF E.rc # 0 THEN E.rc < 0 /\ TooMany /\ UNCHANGED <<file, sav>>
     ELSE /\ ~TooMany /\ file' = [has |-> TRUE, m |-> Merged] /\ sav' = [i \in 1..N |-> Cnt(pt[i])]
  /\ E.has = file'.has
  /\ E.has =>
       /\ E.wf /\ \A i \in 1..(Len(E.rows) - 1) : E.rows[i][1] < E.rows[i+1][1]
       /\ MapOf(E.rows) = file'.m /\ \A i \in 1..Len(E.rows) : Len(E.rows[i]) = CC + 1
       /\ E.rc = 0 =>
            /\ E.n = cfg.n /\ E.k = cfg.k /\ Len(E.rates) = Len(E.rows) /\ Len(E.table) = Len(E.rows)
            /\ \A i \in 1..Len(E.rows) : LET w == E.rows[i] r == E.rates[i] t == E.table[i] IN
                 /\ Rate(r[1], w[4], w[2]) /\ Rate(r[2], w[5], w[2]) /\ MlRate(r[3], w[7], w[6])
                 /\ SnrOk(t[1], w[1]) /\ RateK(t[2], w[3], w[2], cfg.k) /\ Rate(t[3], w[4], w[2]) /\ Rate(t[4], w[5], w[2]) /\ MlRate(t[5], w[7], w[6])
\* The result string has the points up to the current one.
RRes ==
  /\ E.e = "res" /\ ~inrun /\ UNCHANGED <<svars, ann, did, snrs, file, sav>>
  /\ E.wf /\ Len(E.rows) = Min(cur, N)
  /\ \A i \in 1..Len(E.rows) : LET r == E.rows[i] p == pt[i] IN
       /\ Len(r) = (IF cfg.ml THEN 4 ELSE 3)
       /\ SnrOk(r[1], snrs[i]) /\ RateK(r[2], p.ebit, p.trn, cfg.k) /\ Rate(r[3], p.ebl, p.trn)
       /\ cfg.ml => MlRate(r[4], p.eml, p.trnml)
RState == /\ E.e = "state" /\ ~inrun /\ UNCHANGED <<svars, ann, did, snrs, file, sav>>
          /\ LET i == Min(cur, N) IN
             /\ SnrOk(E.psnr, snrs[i])
             /\ E.i = i /\ E.n = N /\ E.trn = pt[i].trn /\ E.req = req[i] /\ E.en = pt[i].ebl
             /\ E.ml = (IF cfg.ml THEN pt[i].eml ELSE -1)
RSim == (TRun \/ TCs \/ TSg \/ TDec \/ TRet \/ TCtl) /\ UNCHANGED <<snrs, file, sav>>
RNext == /\ pos <= Len(R.events) /\ pos' = pos + 1 /\ UNCHANGED rec
         /\ (RSim \/ RState \/ RStart \/ RGone \/ RSave \/ RRes)
         /\ pos = Len(R.events) => PrintT(<<"ACC", R.id>>)
RSpec == RInit /\ [][RNext]_rvars
=============================================================================
