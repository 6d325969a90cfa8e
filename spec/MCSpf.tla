------------------------------- MODULE MCSpf -------------------------------
(***************************************************************************)
(* All short texts: their layout does not matter.  And: every token list   *)
(* is the reading of its renderings.                                       *)
(***************************************************************************)
EXTENDS Spf, TLC
CONSTANT MaxLen
Chars == {97, 32, 44, 10, 13, 37, 123, 125}
VARIABLE text
Tok(t) == SplitAll(Raw(t))
MapSub(t, c, s) == FoldLeft(LAMBDA a, x : a \o (IF x = c THEN s ELSE <<x>>), <<>>, t)
FinalNewline == Tok(text) = Tok(Append(text, LF)) /\ Tok(text) = Tok(text \o <<37, 97, 123>>)
Indented == Tok(text) = Tok(<<32, 9>> \o text)
LineEnds == Tok(text) = Tok(MapSub(text, LF, <<13, LF>>))
Comments == Tok(text) = Tok(MapSub(text, LF, <<37, 97, 32, 125, LF>>)) /\ Tok(text) = Tok(Strip(text))
Doubled == \A c \in Blank \ {LF} : Tok(text) = Tok(MapSub(text, c, <<c, c>>))
BlankLines == Tok(text) = Tok(MapSub(text, LF, <<LF, LF>>))
Commas == Tok(text) = Tok(MapSub(text, 44, <<32>>))
BraceSpace == WellPlaced(text) => Tok(text) = Tok(MapSub(MapSub(text, Open, <<32, Open, 32>>), Close, <<32, Close, 32>>))
Broken == LET s == Strip(text) IN Tok(s) = Tok(MapSub(s, 32, <<LF>>))
RECURSIVE Render(_, _)
Render(ts, sep) == IF ts = <<>> THEN <<>> ELSE ts[1] \o sep \o Render(Tail(ts), sep)
Idempotent == WellPlaced(text) => \A sep \in {<<32>>, <<LF>>, <<44, 32>>, <<37, LF>>, <<13, LF, 9>>} : Tok(Render(Tok(text), sep)) = Tok(text)
\* An included file is its tokens in place, whatever follows or precedes.
Fs == << [name |-> <<109>>, text |-> <<97, 32>> \o IncludeTok \o <<32, 102, 10, 97>>], [name |-> <<102>>, text |-> text],
         [name |-> <<103>>, text |-> IncludeTok \o <<32, 109>>], [name |-> <<99>>, text |-> IncludeTok \o <<32, 99>>],
         [name |-> <<101>>, text |-> IncludeTok], [name |-> <<120>>, text |-> IncludeTok \o <<32, 121>>] >>
Included == LET a == << <<97>> >> IN
  /\ Read(Fs, <<109>>) = Good(a \o Tok(text) \o a)
  /\ Read(Fs, <<103>>) = Read(Fs, <<109>>)
  /\ \A n \in {<<99>>, <<101>>, <<120>>, <<122>>} : ~Read(Fs, n).ok
Init == text = <<>>
Next == Len(text) < MaxLen /\ \E c \in Chars : text' = Append(text, c)
Spec == Init /\ [][Next]_text
=============================================================================
