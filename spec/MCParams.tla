------------------------------ MODULE MCParams ------------------------------
(***************************************************************************)
(* The meaning of parameters, explored: a parameter text is built pair by  *)
(* pair (no known key twice).  Whatever the order and whatever unknown     *)
(* pairs are between, the configuration is that of the known pairs, each   *)
(* value read from its own pair, and a value is never taken for a key.     *)
(***************************************************************************)
EXTENDS Params
CONSTANT MaxLen
VARIABLE sq     \* sequence of indices into Cand
on == <<111, 110>>
two == <<50>>
five == <<53>>
zz == <<122>>
\* key, group?, value words, what it sets
Cand == <<
  [k |-> k_min_trials_per_snr, g |-> FALSE, v |-> <<two>>],
  [k |-> k_min_errors_per_snr, g |-> FALSE, v |-> <<five>>],
  [k |-> k_ml_lb, g |-> FALSE, v |-> <<on>>],
  [k |-> k_ml_lb_hard, g |-> FALSE, v |-> <<k_ml_lb>>],
  [k |-> k_random_codeword, g |-> FALSE, v |-> <<on>>],
  [k |-> k_EbNo_values, g |-> TRUE, v |-> <<two, five>>],
  [k |-> zz, g |-> FALSE, v |-> <<k_random_codeword>>],
  [k |-> k_ml_lb \o zz, g |-> FALSE, v |-> <<on>>],
  [k |-> zz, g |-> TRUE, v |-> <<k_ml_lb, on>>],
  [k |-> zz, g |-> TRUE, v |-> <<>>],
  [k |-> SubSeq(k_ml_lb_hard, 1, 6), g |-> FALSE, v |-> <<on>>] >>
Known(i) == Cand[i].k \in SimKeys
Text(i) == IF Cand[i].g THEN <<Cand[i].k, OpenT>> \o Cand[i].v \o <<CloseT>> ELSE <<Cand[i].k, Cand[i].v[1]>>
Toks == FoldLeft(LAMBDA a, i : a \o Text(i), <<>>, sq)
Init == sq = <<>>
Next == \E i \in 1..Len(Cand) : Len(sq) < MaxLen /\ (\A j \in 1..Len(sq) : Cand[sq[j]].k = Cand[i].k => ~Known(i)) /\ sq' = Append(sq, i)
Spec == Init /\ [][Next]_sq
In(i) == \E j \in 1..Len(sq) : sq[j] = i
\* Pairs are read back as written.
ReadBack == LET ps == Pairs(Toks) IN
  /\ Len(ps) = Len(sq)
  /\ \A j \in 1..Len(sq) : ps[j].k = Cand[sq[j]].k /\ ps[j].v = Cand[sq[j]].v /\ ps[j].g = Cand[sq[j]].g /\ ps[j].closed
Means ==
  LET ps == Pairs(Toks)
      mt == IF In(1) THEN 2 ELSE 1
      c == SimConf(ps)
  IN In(6) => /\ c.init = <<mt, mt>> /\ c.minerr = (IF In(2) THEN 5 ELSE 1)
              /\ c.ml = In(3) /\ c.hd = FALSE /\ c.rnd = In(5) /\ Snrs(ps) = <<2000000, 5000000>>
\* A text cut short is never read as complete.
Cut == LET t == Toks IN t # <<>> => LET ps == Pairs(SubSeq(t, 1, Len(t) - 1)) IN ps # <<>> => ~ps[Len(ps)].closed
=============================================================================
