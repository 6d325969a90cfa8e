----------------------------- MODULE TraceDec -----------------------------
(***************************************************************************)
(* Trace validation of recorded decodings: each record is one call of the  *)
(* real decoder (configuration, received symbols, result).  For each of    *)
(* them the machine of ListDec runs; the record is accepted if one of its  *)
(* behaviours ends with the recorded result.                               *)
(***************************************************************************)
EXTENDS ListDec, Crc, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES rec, pos, paths,
          forks   \* number of ways in which practically equal candidates have been cut so far
vars == <<rec, pos, paths, forks>>

R == Trace[rec]
Cfg(t) == [kind |-> t.kind, m |-> t.m, r |-> t.r, L |-> t.L, mask |-> t.mask,
           leaves |-> TLCEval(Leaves(t.kind, t.m, t.r)),
           ptab |-> TLCEval([k \in 1..Len(t.perms) |-> PermTable(t.perms[k], t.m)])]
Sym(t) == TLCEval([j \in 1..Len(t.y) |-> <<BNat(t.y[j][1]), BNat(t.y[j][2])>>])
Roots(t, cfg) == LET s == Sym(t) IN TLCEval([k \in 1..Len(t.perms) |-> [j \in 1..Len(s) |-> s[cfg.ptab[k][j]]]])

CfgTab == TLCEval([k \in 1..Len(Trace) |-> TLCEval(Cfg(Trace[k]))])
RootTab == TLCEval([k \in 1..Len(Trace) |-> Roots(Trace[k], CfgTab[k])])

Init == /\ rec \in 1..Len(Trace) /\ pos = 0 /\ forks = 1
        /\ paths = {[perm |-> k, ws |-> <<>>, w |-> <<>>] : k \in 1..Len(Trace[rec].perms)}

Visit == \* the next border node
  /\ pos < Len(R.mask)
  /\ LET cfg == CfgTab[rec]
         next == TLCEval(Step(cfg, RootTab[rec], pos + 1, paths))
     IN IF forks * Cardinality(next) <= 200
        THEN paths' \in next /\ pos' = pos + 1 /\ forks' = forks * Cardinality(next)
        ELSE \* several candidates are practically as good as each other where the
             \* list is cut: the result is not determined, do not judge it
             /\ PrintT(<<"AMB", R.id>>) /\ pos' = Len(R.mask) + 1 /\ paths' = {} /\ UNCHANGED forks
  /\ UNCHANGED rec

\* Message (with check bits) of a path of the polar decoder.
PathMsg(t, p) == LET free == {j \in 1..Len(t.mask) : t.mask[j] # 0}
                     Nth(k) == CHOOSE j \in free : Cardinality({h \in free : h <= j}) = k
                 IN [k \in 1..Cardinality(free) |-> p.ws[Nth(k)][1]]
Best(S) == {p \in S : \A q \in S : ~BClearlyLess(p.w, q.w)}

Allowed(t, S) ==
  IF t.crc = <<>>
  THEN /\ t.rc = 0
       /\ LET c == TLCEval(Encode(t.kind, t.m, t.r, t.mask, t.x))
              cfg == CfgTab[rec]
          IN \E p \in Best(S) : PathWord(cfg, p) = c
  ELSE LET ok == {p \in S : ValidCrc(PathMsg(t, p), t.crc)}
       IN IF ok # {} THEN t.rc = 0 /\ \E p \in Best(ok) : InfoPart(PathMsg(t, p), t.crc) = t.x
          ELSE t.rc = 1 /\ \E p \in Best(S) : InfoPart(PathMsg(t, p), t.crc) = t.x

Return == \* the decoder returns: the recorded result must be one the list allows
  /\ pos = Len(R.mask)
  /\ Allowed(R, paths)
  /\ PrintT(<<"ACC", R.id>>)
  /\ pos' = pos + 1 /\ UNCHANGED <<rec, paths, forks>>

Next == Visit \/ Return
Spec == Init /\ [][Next]_vars
ListBound == Cardinality(paths) <= (IF R.L > Len(R.perms) THEN R.L ELSE Len(R.perms))
============================================================================
