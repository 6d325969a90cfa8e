------------------------------ MODULE TraceCli ------------------------------
(***************************************************************************)
(* The executables, called one after another in one directory.  Record:    *)
(*   codec, fs (the parameter files), old (rows of the results file at the *)
(*   start), rf (name of the results file the events are about), events:   *)
(*   call args status out                                                  *)
(*        the program was called and ended with this exit status (crash:   *)
(*        -9); out: what it printed at the end, [ok, rows]; prog: (some of)*)
(*        its status lines; said: it printed something                     *)
(*        after: the results file then [has, wf, rows, n, k, rates,        *)
(*        table, kept] (kept: exactly as before)                           *)
(*   killed args after_s after                                             *)
(*        the same, and it was killed after so many seconds                *)
(*   busy v   somebody else's busy flag appears / is gone                  *)
(*   spoil v  the results file is made unreadable as one / put back        *)
(***************************************************************************)
EXTENDS Rates, Json, IOUtils, TLC, FiniteSets, SequencesExt
PS == INSTANCE Params
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* fixed, free: what the calls with and without -nr added, per parameter file
VARIABLES rec, pos, file, busy, spoilt, fixed, free
vars == <<rec, pos, file, busy, spoilt, fixed, free>>
R == Trace[rec]
E == R.events[pos]
CC == 6
Zeros == [c \in 1..CC |-> 0]
Counters(r) == [c \in 1..CC |-> r[c + 1]]
MapOf(rows) == [s \in {rows[i][1] : i \in 1..Len(rows)} |-> Counters(rows[CHOOSE i \in 1..Len(rows) : rows[i][1] = s])]
At(m, s) == IF s \in DOMAIN m THEN m[s] ELSE Zeros
Plus(a, b) == [c \in 1..CC |-> a[c] + b[c]]
Minus(a, b) == [c \in 1..CC |-> a[c] - b[c]]
ArgName(a) == IF a = <<>> THEN <<>> ELSE a[1]
Rd(a) == IF a = <<>> THEN PS!Fail ELSE PS!Read([i \in 1..Len(R.fs) |-> R.fs[i]], ArgName(a))
NrT == <<45, 110, 114>>
SiT == <<45, 115, 105>>
RiT == <<45, 114, 105>>
\* The options: -nr, -si and -ri with a value each, in any order.
Secs(t) == LET v == PS!IntOf(t) IN IF v < 0 THEN 0 ELSE v
RECURSIVE Opts(_)
Opts(a) == IF a = <<>> THEN [ok |-> TRUE, nr |-> FALSE, si |-> -1, ri |-> -1]
           ELSE IF a[1] = NrT THEN [Opts(Tail(a)) EXCEPT !.nr = TRUE]
           ELSE IF a[1] \in {SiT, RiT} /\ Len(a) >= 2
                THEN LET o == Opts(SubSeq(a, 3, Len(a))) IN IF a[1] = SiT /\ o.si = -1 THEN [o EXCEPT !.si = Secs(a[2])] ELSE IF a[1] = RiT /\ o.ri = -1 THEN [o EXCEPT !.ri = Secs(a[2])] ELSE o
           ELSE [ok |-> FALSE, nr |-> FALSE, si |-> -1, ri |-> -1]
\* What a call adds: each point simulated by its rule.
DeltaOk(cf, snrs, d, k) ==
  /\ DOMAIN d = {snrs[i] : i \in 1..Len(snrs)}
  /\ \A i \in 1..Len(snrs) : LET w == d[snrs[i]] IN
       /\ w[1] >= cf.init[i] /\ w[3] >= cf.minerr
       /\ w[3] <= w[1] /\ w[4] <= w[1] /\ w[3] <= w[2] /\ w[2] <= k * w[3]
       /\ w[5] = (IF cf.ml THEN w[1] - w[4] ELSE 0) /\ w[6] >= 0 /\ w[6] <= w[5]
       /\ (R.codec # "ca_polar_scl" \/ ~R.crc) => w[4] = 0
FileOk(f) ==
  /\ f.has /\ f.wf /\ f.n = R.n /\ f.k = R.k /\ Len(f.rates) = Len(f.rows) /\ Len(f.table) = Len(f.rows)
  /\ \A i \in 1..(Len(f.rows) - 1) : f.rows[i][1] < f.rows[i+1][1]
  /\ \A i \in 1..Len(f.rows) : LET w == f.rows[i] r == f.rates[i] t == f.table[i] IN
       /\ Len(w) = CC + 1
       /\ Rate(r[1], w[4], w[2]) /\ Rate(r[2], w[5], w[2]) /\ MlRate(r[3], w[7], w[6])
       /\ SnrOk(t[1], w[1]) /\ RateK(t[2], w[3], w[2], R.k) /\ Rate(t[3], w[4], w[2]) /\ Rate(t[4], w[5], w[2]) /\ MlRate(t[5], w[7], w[6])
OutOk(o, cf, snrs, d) ==
  /\ o.ok /\ Len(o.rows) = Len(snrs)
  /\ \A i \in 1..Len(snrs) : LET r == o.rows[i] p == d[snrs[i]] IN
       /\ Len(r) = (IF cf.ml THEN 4 ELSE 3) /\ SnrOk(r[1], snrs[i])
       /\ RateK(r[2], p[2], p[1], R.k) /\ Rate(r[3], p[3], p[1]) /\ (cf.ml => MlRate(r[4], p[6], p[5]))
\* The status lines: where the simulation is; it only goes forward.
ProgOk(q, cf, snrs, d) ==
  /\ \A j \in 1..Len(q) : LET p == q[j] IN
       /\ p[2] \in 1..Len(snrs) /\ p[3] = Len(snrs) /\ SnrOk(p[1], snrs[p[2]])
       /\ p[4] >= 0 /\ p[4] <= d[snrs[p[2]]][1] /\ p[6] >= 0 /\ p[6] <= p[4] /\ p[6] <= d[snrs[p[2]]][3]
       /\ p[5] > 0 /\ IF cf.ml THEN p[7] >= 0 /\ p[7] <= p[4] /\ p[7] <= d[snrs[p[2]]][6] ELSE p[7] = -1
  /\ \A j \in 1..(Len(q) - 1) : LET p == q[j] r == q[j+1] IN
       p[2] < r[2] \/ (p[2] = r[2] /\ p[4] < r[4] /\ p[6] <= r[6] /\ p[7] <= r[7])
\* How the call ends: "good" simulates and saves, "bad" fails.
Verdict(a, rd) ==
  IF a = <<>> THEN "bad" ELSE IF ~rd.ok THEN "bad"
  ELSE LET ps == PS!Pairs(rd.toks) v == PS!SimV(R.codec, ps) IN
       IF v # "good" THEN v ELSE IF ~Opts(Tail(a)).ok THEN "any"
       ELSE IF PS!ResFile(ps) # R.rf THEN "elsewhere" ELSE IF busy \/ spoilt THEN "bad" ELSE "good"
Kept == E.after.kept /\ UNCHANGED <<file, fixed, free>>
\* So many counts that two runs do not agree by chance.
RECURSIVE SumBits(_, _)
SumBits(d, S) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN d[s][2] + SumBits(d, S \ {s})
Telling(d) == Cardinality(DOMAIN d) >= 2 /\ SumBits(d, DOMAIN d) >= 60
Good(rd) ==
  LET ps == PS!Pairs(rd.toks) cf == PS!SimConf(ps) snrs == PS!Snrs(ps)
      now == MapOf(E.after.rows)
      d == [s \in {snrs[i] : i \in 1..Len(snrs)} |-> Minus(At(now, s), At(file, s))]
      key == ArgName(E.args)
  IN /\ E.status = 0 /\ FileOk(E.after)
     /\ DOMAIN now = DOMAIN file \cup DOMAIN d
     /\ \A s \in DOMAIN file \ DOMAIN d : now[s] = file[s]
     /\ DeltaOk([cf EXCEPT !.k = R.k], snrs, d, R.k) /\ OutOk(E.out, cf, snrs, d) /\ ProgOk(E.prog, cf, snrs, d)
     /\ file' = now
     \* the same every time with -nr, else something else every time
     /\ IF ~Opts(Tail(E.args)).ok \/ Opts(Tail(E.args)).nr THEN UNCHANGED free
        ELSE IF Telling(d) THEN <<key, d>> \notin free /\ free' = free \cup {<<key, d>>} ELSE UNCHANGED free
     /\ IF ~Opts(Tail(E.args)).ok \/ ~Opts(Tail(E.args)).nr THEN UNCHANGED fixed
        ELSE IF key \in DOMAIN fixed THEN fixed[key] = d /\ UNCHANGED fixed
        ELSE fixed' = [x \in DOMAIN fixed \cup {key} |-> IF x = key THEN d ELSE fixed[x]]
\* Killed while it ran: what was saved are trials of its points, and at least
\* one save was due once both intervals have passed.
Killed ==
  LET rd == TLCEval(Rd(E.args)) v == TLCEval(Verdict(E.args, rd)) ps == PS!Pairs(rd.toks) cf == PS!SimConf(ps) snrs == PS!Snrs(ps)
      now == MapOf(E.after.rows) o == Opts(Tail(E.args))
      pts == {snrs[i] : i \in 1..Len(snrs)}
      d == [s \in pts |-> Minus(At(now, s), At(file, s))]
  IN /\ E.e = "killed" /\ UNCHANGED <<busy, spoilt, fixed, free>>
     /\ v # "bad"
     /\ \/ E.after.kept /\ UNCHANGED file /\ ~(v = "good" /\ o.ok /\ o.si >= 0 /\ o.ri >= 0 /\ E.after_s > o.si + o.ri + 3)
        \/ /\ v = "good" /\ FileOk(E.after) /\ file' = now
           /\ DOMAIN file \subseteq DOMAIN now /\ DOMAIN now \subseteq DOMAIN file \cup pts
           /\ \A s \in DOMAIN file \ pts : now[s] = file[s]
           /\ \A s \in pts : LET w == d[s] IN
                /\ w[1] >= 0 /\ w[3] >= 0 /\ w[3] <= w[1] /\ w[4] >= 0 /\ w[4] <= w[1] /\ w[3] <= w[2] /\ w[2] <= R.k * w[3]
                /\ w[5] = (IF cf.ml THEN w[1] - w[4] ELSE 0) /\ w[6] >= 0 /\ w[6] <= w[5]
           /\ \E s \in pts : d[s][1] > 0
     /\ PrintT(<<"VERDICT", "killed">>)
Call == /\ E.e = "call" /\ UNCHANGED <<busy, spoilt>> /\ E.status >= 0
        /\ LET rd == TLCEval(Rd(E.args)) v == TLCEval(Verdict(E.args, rd)) IN
           /\ CASE v = "bad" -> E.status > 0 /\ E.said /\ Kept
                [] v = "good" -> Good(rd)
                [] v = "elsewhere" -> E.status = 0 /\ Kept
                [] v = "any" -> Kept \/ Good(rd)
           /\ PrintT(<<"VERDICT", v>>)
Busy == E.e = "busy" /\ busy' = E.v /\ UNCHANGED <<file, spoilt, fixed, free>>
Spoil == E.e = "spoil" /\ spoilt' = E.v /\ UNCHANGED <<file, busy, fixed, free>>
Init == rec \in 1..Len(Trace) /\ pos = 1 /\ busy = FALSE /\ spoilt = FALSE /\ fixed = <<>> /\ free = {} /\ file = MapOf(Trace[rec].old)
Next == /\ pos <= Len(R.events) /\ pos' = pos + 1 /\ UNCHANGED rec /\ (Call \/ Killed \/ Busy \/ Spoil)
        /\ pos = Len(R.events) => PrintT(<<"ACC", R.id>>)
Spec == Init /\ [][Next]_vars
=============================================================================
