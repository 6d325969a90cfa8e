-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The life of codec instances in one process, as a caller sees it.        *)
(* A slot is closed, or open with a configuration and the channel          *)
(* information (sigma, SNR number) most recently given to it.  Encoding    *)
(* and decoding change nothing; their results are a function of the        *)
(* slot's configuration, its channel information and the input alone.      *)
(* Memory is held exactly by the open slots.                               *)
(*                                                                         *)
(* Used in three ways: MCApi checks the invariants exhaustively with small *)
(* constants; with -simulate it generates the call sequences that are      *)
(* replayed into the real codecs (printed by Emit); TraceApi decides the   *)
(* recorded answers.                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Slots, Cfgs, Chans, Ins, Depth
VARIABLES slot, last, hist
vars == <<slot, last, hist>>
Closed == [open |-> FALSE, cfg |-> 0, ch |-> 0]
Init == slot = [s \in Slots |-> Closed] /\ last = <<>> /\ hist = <<>>

\* What a call on a slot may depend on.
Key(op, s, i) == <<op, slot[s].cfg, IF op = "dec" THEN slot[s].ch ELSE 0, i>>
Do(op, s, a) == hist' = Append(hist, <<op, s, a>>)
Open(s, c) == /\ ~slot[s].open /\ slot' = [slot EXCEPT ![s] = [open |-> TRUE, cfg |-> c, ch |-> 0]]
              /\ last' = <<>> /\ Do("init", s, c)
Chan(s, h) == /\ slot[s].open /\ slot' = [slot EXCEPT ![s].ch = h] /\ last' = <<>> /\ Do("chan", s, h)
Enc(s, i) == slot[s].open /\ last' = Key("enc", s, i) /\ UNCHANGED slot /\ Do("enc", s, i)
\* A decoder needs the channel information first.
Dec(s, i) == slot[s].open /\ slot[s].ch # 0 /\ last' = Key("dec", s, i) /\ UNCHANGED slot /\ Do("dec", s, i)
\* An init with parameters that are not accepted leaves nothing behind.
Bad(s, b) == ~slot[s].open /\ UNCHANGED slot /\ last' = <<>> /\ Do("bad", s, b)
Close(s) == slot[s].open /\ slot' = [slot EXCEPT ![s] = Closed] /\ last' = <<>> /\ Do("close", s, 0)

Next == /\ Len(hist) < Depth
        /\ \E s \in Slots : \/ \E c \in Cfgs : Open(s, c)
                            \/ \E h \in Chans : Chan(s, h)
                            \/ \E i \in Ins : Enc(s, i) \/ Dec(s, i)
                            \/ \E b \in Chans : Bad(s, b)
                            \/ Close(s)
Spec == Init /\ [][Next]_vars

TypeOK == \A s \in Slots : slot[s].open => slot[s].cfg \in Cfgs
\* The state of a slot is what its own last calls made it: other slots and
\* earlier lives of the slot do not matter.
RECURSIVE LastOf(_, _, _)
LastOf(h, s, ops) == IF h = <<>> THEN <<"none", s, 0>>
                     ELSE LET e == h[Len(h)] IN IF e[2] = s /\ e[1] \in ops THEN e
                          ELSE LastOf(SubSeq(h, 1, Len(h) - 1), s, ops)
Own == \A s \in Slots :
  /\ slot[s].open = (LastOf(hist, s, {"init", "close"})[1] = "init")
  /\ slot[s].open => slot[s].cfg = LastOf(hist, s, {"init"})[3]
  /\ slot[s].ch # 0 => slot[s].ch = LastOf(hist, s, {"chan"})[3]
Emit == Len(hist) = Depth => PrintT(<<"SEQ", hist>>)
============================================================================
