----------------------------- MODULE TraceParam -----------------------------
(***************************************************************************)
(* Runs of the real simulator whose configuration is not told but read, by *)
(* the specification of parameter files (Params, Spf), from the files the  *)
(* simulator was given: the run must be one of SimRun for what the files   *)
(* mean.  Records: those of TraceSim with fs (files), name (main file) in  *)
(* place of cfg; rf: the results file the events are about.                *)
(***************************************************************************)
EXTENDS TraceSim
PS == INSTANCE Params
RdOf(r) == PS!Read([i \in 1..Len(r.fs) |-> r.fs[i]], r.name)
PInit == /\ rec \in 1..Len(Trace) /\ pos = 1 /\ ann = [cs |-> -1, sg |-> FALSE] /\ did = FALSE
         /\ LET rd == TLCEval(RdOf(Trace[rec])) ps == TLCEval(PS!Pairs(rd.toks)) IN
            /\ rd.ok /\ PS!Snrs(ps) = Trace[rec].snr /\ PS!ResFile(ps) = Trace[rec].rf
            /\ SInit(PS!SimConf(ps))
PSpec == PInit /\ [][TNext]_tvars
=============================================================================
