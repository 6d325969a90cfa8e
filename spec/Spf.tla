-------------------------------- MODULE Spf --------------------------------
(***************************************************************************)
(* Parameter files: from characters (codes) to tokens.                     *)
(* A text is a sequence of character codes.  A set of files is a sequence  *)
(* of [name, text].                                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt
Blank == {32, 44, 9, 10, 13}       \* space , tab LF CR
Pct == 37 LF == 10 Open == 123 Close == 125
IncludeTok == <<105, 110, 99, 108, 117, 100, 101>>

\* Comments go from % to the end of the line.
Strip(t) == FoldLeft(LAMBDA a, c : IF a.in THEN (IF c = LF THEN [out |-> Append(a.out, c), in |-> FALSE] ELSE a)
                                   ELSE IF c = Pct THEN [a EXCEPT !.in = TRUE] ELSE [a EXCEPT !.out = Append(a.out, c)],
                     [out |-> <<>>, in |-> FALSE], t).out
\* Words between separators.
Close1(a) == IF a.cur = <<>> THEN a.toks ELSE Append(a.toks, a.cur)
Words(t) == Close1(FoldLeft(LAMBDA a, c : IF c \in Blank THEN [toks |-> Close1(a), cur |-> <<>>] ELSE [a EXCEPT !.cur = Append(a.cur, c)],
                            [toks |-> <<>>, cur |-> <<>>], t))
Raw(t) == Words(Strip(t))
\* A brace is a token of its own even when written next to the group's items.
SplitBraces(w) ==
  LET open == w[1] = Open
      w1 == IF open THEN Tail(w) ELSE w
      close == w1 # <<>> /\ w1[Len(w1)] = Close
      w2 == IF close THEN SubSeq(w1, 1, Len(w1) - 1) ELSE w1
  IN (IF open THEN << <<Open>> >> ELSE <<>>) \o (IF w2 = <<>> THEN <<>> ELSE <<w2>>) \o (IF close THEN << <<Close>> >> ELSE <<>>)
SplitAll(ws) == FoldLeft(LAMBDA a, w : a \o SplitBraces(w), <<>>, ws)

Fail == [ok |-> FALSE, toks |-> <<>>]
Good(ts) == [ok |-> TRUE, toks |-> ts]
Has(fs, name) == \E i \in 1..Len(fs) : fs[i].name = name
File(fs, name) == fs[CHOOSE i \in 1..Len(fs) : fs[i].name = name].text
\* An include directive stands for the tokens of the file it names.  depth:
\* how many nested includes there may be (more than there are files: a cycle).
RECURSIVE Expand(_, _, _)
Expand(fs, ws, depth) ==
  LET is == {i \in 1..Len(ws) : ws[i] = IncludeTok} IN
  IF is = {} THEN Good(ws)
  ELSE LET i == CHOOSE i \in is : \A j \in is : i <= j IN
       IF i = Len(ws) \/ depth = 0 THEN Fail
       ELSE IF ~Has(fs, ws[i+1]) THEN Fail
       ELSE LET a == Expand(fs, Raw(File(fs, ws[i+1])), depth - 1)
                b == Expand(fs, SubSeq(ws, i + 2, Len(ws)), depth)
            IN IF a.ok /\ b.ok THEN Good(SubSeq(ws, 1, i - 1) \o a.toks \o b.toks) ELSE Fail
\* What reading file name means.
Read(fs, name) ==
  IF ~Has(fs, name) THEN Fail
  ELSE LET e == Expand(fs, Raw(File(fs, name)), Len(fs)) IN IF e.ok THEN Good(SplitAll(e.toks)) ELSE Fail

\* Nothing is promised for braces inside words (a{b, }a, {{ ).
Plain(w) == \A i \in 1..Len(w) : w[i] \notin {Open, Close}
BracesOk(w) == Len(SplitBraces(w)) > 0 /\ \A i \in 1..Len(SplitBraces(w)) : LET s == SplitBraces(w)[i] IN s \in {<<Open>>, <<Close>>} \/ Plain(s)
WellPlaced(t) == LET ws == Raw(t) IN \A i \in 1..Len(ws) : BracesOk(ws[i])

\* Length of the token list, a separator after each.
OutLen(ts) == FoldLeft(LAMBDA a, w : a + Len(w) + 1, 0, ts)
=============================================================================
