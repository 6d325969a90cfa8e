------------------------------ MODULE TraceVar ------------------------------
(***************************************************************************)
(* Decoding with a variable list (dtrm_glp, use_variable_list): the list   *)
(* sizes given with distance_threshold are tried in order; the first       *)
(* decision closer to the received vector than the threshold given with    *)
(* its list size is returned, or the last one.  Records are those of       *)
(* TraceDec with                                                           *)
(*   tries  list sizes with thresholds: [L, neg, M, e] for +-M / 10^e      *)
(*   yf, s2 received values and sigma^2 in units of 2^-26                  *)
(***************************************************************************)
EXTENDS TraceDec, Integers
VARIABLE att
vvars == <<vars, att>>
Abs(v) == IF v < 0 THEN -v ELSE v
RECURSIVE DistUpTo(_, _, _)
DistUpTo(y, c, j) == IF j = 0 THEN <<>> ELSE LET d == BNat(Abs(y[j] - (IF c[j] = 1 THEN 67108864 ELSE -67108864))) IN BAdd(BMul(d, d), DistUpTo(y, c, j - 1))
\* Squared distance over sigma^2 against a threshold; both are rounded, so it
\* may be either when they agree in six digits.
Less6(a, b) == BLess(BMul(a, BNat(1000001)), BMul(b, BNat(1000000)))
Lhs(c, t) == BMul(DistUpTo(R.yf, c, Len(c)), BPow(BNat(10), t.e))
Rhs(t) == BMul(BNat(t.M), BMul(BNat(R.s2), BNat(67108864)))
MayStop(c, t) == ~t.neg /\ ~Less6(Rhs(t), Lhs(c, t))
MayGoOn(c, t) == t.neg \/ ~Less6(Lhs(c, t), Rhs(t))
Try == R.tries[att]
AllPaths(t) == {[perm |-> k, ws |-> <<>>, w |-> <<>>] : k \in 1..Len(t.perms)}
VInit == /\ rec \in 1..Len(Trace) /\ pos = 0 /\ att = 1 /\ forks = 1 /\ paths = AllPaths(Trace[rec])
VVisit ==
  /\ pos < Len(R.mask) /\ UNCHANGED <<rec, att>>
  /\ LET cfg == [CfgTab[rec] EXCEPT !.L = Try.L]
         next == TLCEval(Step(cfg, RootTab[rec], pos + 1, paths))
     IN IF forks * Cardinality(next) <= 200 THEN paths' \in next /\ pos' = pos + 1 /\ forks' = forks * Cardinality(next)
        ELSE PrintT(<<"AMB", R.id>>) /\ pos' = Len(R.mask) + 1 /\ paths' = {} /\ UNCHANGED forks
VReturn ==
  /\ pos = Len(R.mask) /\ R.rc = 0
  /\ LET c == TLCEval(Encode(R.kind, R.m, R.r, R.mask, R.x)) IN
     /\ \E p \in Best(paths) : PathWord(CfgTab[rec], p) = c
     /\ att = Len(R.tries) \/ MayStop(c, Try)
  /\ PrintT(<<"ACC", R.id>>) /\ pos' = pos + 1 /\ UNCHANGED <<rec, paths, att, forks>>
VNext == 
  /\ pos = Len(R.mask) /\ att < Len(R.tries)
  /\ \E p \in Best(paths) : MayGoOn(PathWord(CfgTab[rec], p), Try)
  /\ att' = att + 1 /\ pos' = 0 /\ paths' = AllPaths(R) /\ UNCHANGED <<rec, forks>>
VSpec == VInit /\ [][VVisit \/ VReturn \/ VNext]_vvars
VBound == pos < Len(R.mask) => Cardinality(paths) <= (IF Try.L > Len(R.perms) THEN Try.L ELSE Len(R.perms))
=============================================================================
