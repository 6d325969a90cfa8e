------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* What the tokens of a parameter file mean to the simulator and to the    *)
(* codecs.  Tokens are sequences of character codes.                       *)
(***************************************************************************)
EXTENDS Spf, Integers, FiniteSets
OpenT == <<Open>> CloseT == <<Close>>
None == << >>

\* The keys, spelled in character codes.
k_RM_m == <<82, 77, 95, 109>>
k_RM_r == <<82, 77, 95, 114>>
k_border_node_mask == <<98, 111, 114, 100, 101, 114, 95, 110, 111, 100, 101, 95, 109, 97, 115, 107>>
k_border_node_lsize == <<98, 111, 114, 100, 101, 114, 95, 110, 111, 100, 101, 95, 108, 115, 105, 122, 101>>
k_permutations == <<112, 101, 114, 109, 117, 116, 97, 116, 105, 111, 110, 115>>
k_use_variable_list == <<117, 115, 101, 95, 118, 97, 114, 105, 97, 98, 108, 101, 95, 108, 105, 115, 116>>
k_distance_threshold == <<100, 105, 115, 116, 97, 110, 99, 101, 95, 116, 104, 114, 101, 115, 104, 111, 108, 100>>
k_c_m == <<99, 95, 109>>
k_info_bits_mask == <<105, 110, 102, 111, 95, 98, 105, 116, 115, 95, 109, 97, 115, 107>>
k_ca_polar_crc == <<99, 97, 95, 112, 111, 108, 97, 114, 95, 99, 114, 99>>
k_list_size == <<108, 105, 115, 116, 95, 115, 105, 122, 101>>
k_res_file == <<114, 101, 115, 95, 102, 105, 108, 101>>
k_SNR_val_trn == <<83, 78, 82, 95, 118, 97, 108, 95, 116, 114, 110>>
k_EbNo_values == <<69, 98, 78, 111, 95, 118, 97, 108, 117, 101, 115>>
k_min_trials_per_snr == <<109, 105, 110, 95, 116, 114, 105, 97, 108, 115, 95, 112, 101, 114, 95, 115, 110, 114>>
k_min_errors_per_snr == <<109, 105, 110, 95, 101, 114, 114, 111, 114, 115, 95, 112, 101, 114, 95, 115, 110, 114>>
k_ml_lb == <<109, 108, 95, 108, 98>>
k_ml_lb_hard == <<109, 108, 95, 108, 98, 95, 104, 97, 114, 100>>
k_random_codeword == <<114, 97, 110, 100, 111, 109, 95, 99, 111, 100, 101, 119, 111, 114, 100>>
k_fixed_R == <<102, 105, 120, 101, 100, 95, 82>>
k_mock_n == <<109, 111, 99, 107, 95, 110>>
k_mock_k == <<109, 111, 99, 107, 95, 107>>
k_mock_zero == <<109, 111, 99, 107, 95, 122, 101, 114, 111>>
k_mock_fail == <<109, 111, 99, 107, 95, 102, 97, 105, 108>>

Digit(c) == c >= 48 /\ c <= 57
\* The integer a word starts with (sign, digits; 0 if it is none).
IntOf(w) ==
  LET neg == w # <<>> /\ w[1] = 45
      w1 == IF w # <<>> /\ w[1] \in {43, 45} THEN Tail(w) ELSE w
      f == FoldLeft(LAMBDA a, c : IF a.on /\ Digit(c) THEN [a EXCEPT !.v = IF neg THEN 10 * a.v - (c - 48) ELSE 10 * a.v + (c - 48)] ELSE [a EXCEPT !.on = FALSE], [v |-> 0, on |-> TRUE], w1)
  IN f.v
\* A decimal number in millionths (at most six decimals).
MicroOf(w) ==
  LET neg == w # <<>> /\ w[1] = 45
      w1 == IF w # <<>> /\ w[1] \in {43, 45} THEN Tail(w) ELSE w
      f == FoldLeft(LAMBDA a, c : IF c = 46 THEN [a EXCEPT !.dot = TRUE]
                                  ELSE [v |-> 10 * a.v + (c - 48), n |-> a.n + (IF a.dot THEN 1 ELSE 0), dot |-> a.dot], [v |-> 0, n |-> 0, dot |-> FALSE], w1)
      p[i \in Nat] == IF i = 0 THEN 1 ELSE 10 * p[i - 1]
      x == f.v * p[6 - f.n]
  IN IF neg THEN 0 - x ELSE x

---------------------------------------------------------------------------
\* Keys with their values.  v: the word, or the words of the group; closed:
\* the value is complete.
RECURSIVE Pairs(_)
Pairs(ts) ==
  IF ts = <<>> THEN <<>>
  ELSE IF Len(ts) = 1 THEN << [k |-> ts[1], g |-> FALSE, v |-> <<>>, closed |-> FALSE] >>
  ELSE IF ts[2] = OpenT
       THEN LET cs == {i \in 3..Len(ts) : ts[i] = CloseT} IN
            IF cs = {} THEN << [k |-> ts[1], g |-> TRUE, v |-> SubSeq(ts, 3, Len(ts)), closed |-> FALSE] >>
            ELSE LET e == CHOOSE i \in cs : \A j \in cs : i <= j IN
                 << [k |-> ts[1], g |-> TRUE, v |-> SubSeq(ts, 3, e - 1), closed |-> TRUE] >> \o Pairs(SubSeq(ts, e + 1, Len(ts)))
       ELSE << [k |-> ts[1], g |-> FALSE, v |-> <<ts[2]>>, closed |-> TRUE] >> \o Pairs(SubSeq(ts, 3, Len(ts)))

\* The value of a key (keys are given at most once where anything is
\* promised); the group values are told apart from words.
At(ps, k) == {i \in 1..Len(ps) : ps[i].k = k}
Given(ps, k) == At(ps, k) # {}
P(ps, k) == ps[CHOOSE i \in At(ps, k) : TRUE]
IntP(ps, k, dflt) == IF Given(ps, k) /\ P(ps, k).closed THEN IntOf(P(ps, k).v[1]) ELSE dflt
OnP(ps, k) == Given(ps, k) /\ P(ps, k).closed /\ P(ps, k).v[1] = <<111, 110>>
WordP(ps, k) == IF Given(ps, k) /\ P(ps, k).closed THEN P(ps, k).v[1] ELSE <<>>
BitsOf(w) == [i \in 1..Len(w) |-> IF w[i] = 48 THEN 0 ELSE 1]

SimKeys == {k_res_file, k_SNR_val_trn, k_EbNo_values, k_min_trials_per_snr, k_min_errors_per_snr, k_ml_lb, k_ml_lb_hard, k_random_codeword, k_fixed_R}
MockKeys == {k_mock_n, k_mock_k, k_mock_zero, k_mock_fail}
RmKeys == {k_RM_m, k_RM_r}
GlpKeys == RmKeys \cup {k_border_node_mask, k_border_node_lsize, k_permutations, k_use_variable_list, k_distance_threshold}
PolarKeys == {k_c_m, k_info_bits_mask, k_ca_polar_crc, k_list_size, k_permutations}
KeysOf(codec) == CASE codec \in {"dtrm0", "dtrm1"} -> RmKeys [] codec = "dtrm_glp" -> GlpKeys [] codec = "ca_polar_scl" -> PolarKeys [] codec = "mock" -> MockKeys
Groups == {k_permutations, k_distance_threshold, k_SNR_val_trn, k_EbNo_values}

\* No key of interest more than once, every value complete and of its kind.
Once(ps, keys) == \A k \in keys : Cardinality(At(ps, k)) <= 1
Kinds(ps, keys) == \A i \in 1..Len(ps) : ps[i].closed /\ (ps[i].k \in keys => (ps[i].g <=> ps[i].k \in Groups))

---------------------------------------------------------------------------
\* The simulator's configuration.
Max1(x, d) == IF x > 0 THEN x ELSE d
SnrTrn(ps) == LET v == P(ps, k_SNR_val_trn).v IN [i \in 1..(Len(v) \div 2) |-> <<MicroOf(v[2 * i - 1]), IntOf(v[2 * i])>>]
Snrs(ps) == IF Given(ps, k_SNR_val_trn) THEN [i \in 1..Len(SnrTrn(ps)) |-> SnrTrn(ps)[i][1]]
            ELSE LET v == P(ps, k_EbNo_values).v IN [i \in 1..Len(v) |-> MicroOf(v[i])]
SimConf(ps) ==
  LET mt == Max1(IntP(ps, k_min_trials_per_snr, 1), 1)
      hd == OnP(ps, k_ml_lb_hard)
  IN [init |-> IF Given(ps, k_SNR_val_trn) THEN [i \in 1..Len(SnrTrn(ps)) |-> Max1(SnrTrn(ps)[i][2], mt)] ELSE [i \in 1..Len(Snrs(ps)) |-> mt],
      minerr |-> Max1(IntP(ps, k_min_errors_per_snr, 1), 1),
      ml |-> OnP(ps, k_ml_lb) \/ hd, hd |-> hd, rnd |-> OnP(ps, k_random_codeword),
      k |-> IntP(ps, k_mock_k, 3), n |-> IntP(ps, k_mock_n, 8)]
\* The rate the noise is computed for: a fixed one, as a word, or k/n.
RateWord(ps) == WordP(ps, k_fixed_R)
ResFile(ps) == WordP(ps, k_res_file)

---------------------------------------------------------------------------
\* The codecs' configurations.
Perms(ps, m) ==
  IF ~Given(ps, k_permutations) \/ P(ps, k_permutations).v = <<>> THEN << [i \in 1..m |-> i - 1] >>
  ELSE LET v == P(ps, k_permutations).v IN [j \in 1..(Len(v) \div m) |-> [i \in 1..m |-> IntOf(v[(j - 1) * m + i])]]
VarList(ps) ==
  IF ~OnP(ps, k_use_variable_list) THEN <<>>
  ELSE LET v == P(ps, k_distance_threshold).v IN [j \in 1..(Len(v) \div 2) |-> <<IntOf(v[2 * j - 1]), v[2 * j]>>]
CodecConf(codec, ps) ==
  CASE codec \in {"dtrm0", "dtrm1"} -> [m |-> IntP(ps, k_RM_m, 0), r |-> IntP(ps, k_RM_r, 0)]
    [] codec = "dtrm_glp" -> LET m == IntP(ps, k_RM_m, 0) IN
         [m |-> m, r |-> IntP(ps, k_RM_r, 0), mask |-> BitsOf(WordP(ps, k_border_node_mask)), L |-> IntP(ps, k_border_node_lsize, 0),
          perms |-> Perms(ps, m), var |-> VarList(ps)]
    [] codec = "ca_polar_scl" -> LET m == IntP(ps, k_c_m, 0) IN
         [m |-> m, mask |-> BitsOf(WordP(ps, k_info_bits_mask)), L |-> IntP(ps, k_list_size, 0), crc |-> BitsOf(WordP(ps, k_ca_polar_crc)), perms |-> Perms(ps, m)]

---------------------------------------------------------------------------
(* Which parameters must be refused ("bad"), must be accepted ("good") or  *)
(* may be either ("any": nothing is documented).                           *)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 THEN 1 ELSE (Choose(n, k - 1) * (n - k + 1)) \div k
Ones(b, n) == Cardinality({i \in 1..n : b[i] = 1})
Perm(p, m) == {p[i] : i \in 1..m} = 0..(m - 1)
Worst(s) == IF "bad" \in s THEN "bad" ELSE IF "any" \in s THEN "any" ELSE "good"
V(bad) == IF bad THEN "bad" ELSE "good"
\* The value of a key that is required and a word, the integer lo or more.
Need(ps, k, lo) == V(~Given(ps, k) \/ (P(ps, k).closed /\ IntP(ps, k, lo - 1) < lo) \/ ~P(ps, k).closed)
\* Parameters outside what is documented at all.
Odd(ps, keys) == IF Once(ps, keys) /\ \A i \in 1..Len(ps) : (ps[i].closed \/ i = Len(ps)) /\ (ps[i].k \in keys /\ ps[i].k \notin Groups => ~ps[i].g) THEN "good" ELSE "any"
PermsV(ps, m, mkey) ==
  IF ~Given(ps, k_permutations) THEN "good"
  ELSE LET q == P(ps, k_permutations)
           before == \A i \in At(ps, k_permutations) : \E j \in At(ps, mkey) : j < i
           v == q.v
       IN IF ~q.g /\ q.closed /\ q.v[1] = CloseT THEN "any"
          ELSE IF ~q.g \/ ~q.closed \/ ~before THEN "bad"
          ELSE IF v = <<>> THEN "any"
          ELSE IF Len(v) % m # 0 THEN "bad"
          ELSE IF \E j \in 1..Len(Perms(ps, m)) : ~Perm(Perms(ps, m)[j], m) THEN "bad"
          ELSE IF \A j \in 1..Len(Perms(ps, m)) : \A i \in 1..m : Perms(ps, m)[j][i] = i - 1 THEN "good" ELSE "moved"
VarV(ps) ==
  LET q == P(ps, k_distance_threshold) on == OnP(ps, k_use_variable_list) IN
  IF ~Given(ps, k_distance_threshold) THEN V(on)
  ELSE IF ~q.g \/ ~q.closed THEN "bad"
  ELSE IF Len(q.v) > 100 THEN "bad" ELSE IF Len(q.v) % 2 # 0 THEN "any"
  ELSE IF q.v = <<>> THEN V(on)
  ELSE V(on /\ \E j \in 1..Len(VarList(ps)) : VarList(ps)[j][1] < 1)
RmV(ps) ==
  LET m == IntP(ps, k_RM_m, 0) r == IntP(ps, k_RM_r, 0) IN
  IF Worst({Need(ps, k_RM_m, 1), Need(ps, k_RM_r, 1)}) = "bad" THEN "bad"
  ELSE IF r > m \/ m > 30 THEN "bad" ELSE IF m > 16 THEN "any" ELSE "good"
GlpV(ps) ==
  LET m == IntP(ps, k_RM_m, 0) r == IntP(ps, k_RM_r, 0) mask == BitsOf(WordP(ps, k_border_node_mask)) IN
  IF "bad" \in {RmV(ps), Need(ps, k_border_node_lsize, 1), VarV(ps)} \/ mask = <<>> THEN "bad"
  ELSE IF r = m \/ m > 16 THEN "any"
  ELSE LET c == Choose(m, r) pv == PermsV(ps, m, k_RM_m) IN
       IF Len(mask) < c \/ pv = "bad" THEN "bad"
       ELSE IF Ones(mask, c) = 0 THEN "bad"
       ELSE IF IntP(ps, k_border_node_lsize, 1) > 5000 \/ Len(mask) > c \/ (pv = "moved" /\ Ones(mask, c) < c) \/ pv = "any" \/ VarV(ps) = "any" THEN "any" ELSE "good"
PolarV(ps) ==
  LET m == IntP(ps, k_c_m, 0) mask == BitsOf(WordP(ps, k_info_bits_mask)) crc == BitsOf(WordP(ps, k_ca_polar_crc)) IN
  IF "bad" \in {Need(ps, k_c_m, 1), Need(ps, k_list_size, 1)} \/ mask = <<>> \/ m > 30 THEN "bad"
  ELSE IF m > 16 THEN (IF m > 20 THEN "bad" ELSE "any")     \* no mask can be that long
  ELSE LET n == 2^m pv == PermsV(ps, m, k_c_m) IN
       IF Len(mask) < n \/ pv = "bad" \/ (Given(ps, k_ca_polar_crc) /\ ~P(ps, k_ca_polar_crc).closed) THEN (IF Len(mask) < n \/ pv = "bad" THEN "bad" ELSE "any")
       ELSE IF Ones(mask, n) - Len(crc) < 1 THEN "bad"
       ELSE IF Ones(mask, n) < 2 * Len(crc) \/ IntP(ps, k_list_size, 1) > 5000 \/ Len(mask) > n \/ pv \in {"any", "moved"} THEN "any" ELSE "good"
CodecV(codec, ps) ==
  LET v == CASE codec \in {"dtrm0", "dtrm1"} -> RmV(ps) [] codec = "dtrm_glp" -> GlpV(ps) [] codec = "ca_polar_scl" -> PolarV(ps)
             [] codec = "mock" -> V(Given(ps, k_mock_fail))
  IN IF Odd(ps, KeysOf(codec)) = "any" THEN "any" ELSE v

SnrV(ps) ==
  LET one(k, per) ==
        LET q == P(ps, k) IN
        IF ~q.g \/ ~q.closed \/ Len(q.v) % per # 0 \/ Len(q.v) = 0 \/ Len(q.v) > 50 * per THEN "bad" ELSE "good"
  IN IF Given(ps, k_SNR_val_trn) /\ Given(ps, k_EbNo_values) THEN "any"
     ELSE IF Given(ps, k_SNR_val_trn) THEN one(k_SNR_val_trn, 2) ELSE IF Given(ps, k_EbNo_values) THEN one(k_EbNo_values, 1) ELSE "bad"
SimV(codec, ps) ==
  LET w == ResFile(ps)
      v == IF w = <<>> THEN "bad" ELSE IF Len(w) > 200 THEN "any" ELSE "good"
      all == {SnrV(ps), v, CodecV(codec, ps)}
  IN IF Odd(ps, KeysOf(codec) \cup SimKeys) = "any" THEN "any" ELSE Worst(all)
=============================================================================
