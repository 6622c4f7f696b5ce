------------------------------ MODULE ReadEnum ------------------------------
(* Exhaustive exploration of the parser over token strings. The lexer is     *)
(* replaced by a free choice of the next token from an alphabet, so TLC      *)
(* visits every viable prefix up to the bound and every token that may not   *)
(* follow it. Every accepted string is written out with the events it        *)
(* denotes, every rejected one with the open bodies at that point.           *)
EXTENDS Integers, Sequences, Json, IOUtils, CSV

Cfg == JsonDeserialize(IOEnv.CFG)        \* [toks: alphabet, prefix: how every string begins, max: longest string]
Toks == Cfg.toks                         \* token records as the parser sees them
NoText(s) == <<>>

VARIABLES src, pos, lx, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf, out
VARIABLES toks,   \* chosen so far, as indices into the alphabet
          hist    \* events emitted so far

R == INSTANCE DotReader WITH Text <- NoText
rv == <<src, pos, lx, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf, out>>
vars == <<src, pos, lx, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf, out, toks, hist>>

Eof == 0
Init == R!ReaderInit(0) /\ toks = <<>> /\ hist = <<>>

Depth == Len(fr)
Choose ==
  /\ ~R!Final /\ tok.t = "none"
  /\ \E i \in 0..Len(Toks) :
       \* the end is always possible, anything else only below the bound
       /\ IF Len(toks) < Len(Cfg.prefix) THEN i = Cfg.prefix[Len(toks) + 1]
          ELSE IF i = Eof THEN TRUE ELSE Len(toks) < Cfg.max
       /\ tok' = IF i = Eof THEN R!EofTok ELSE Toks[i].tok
       /\ toks' = Append(toks, i)
       /\ out' = <<>>
       /\ lastk' = ""
       /\ UNCHANGED <<src, pos, lx, beg, dep, ctl, fr, nv, own, pid, prt, gf, hist>>

Write == /\ ctl' \in {"acc", "rej"}
         => CSVWrite("%1$s", <<ToJson([v |-> ctl', toks |-> toks, open |-> Len(fr), ev |-> IF ctl' = "acc" THEN hist' ELSE <<>>])>>, IOEnv.OUT)

Parse == /\ R!Parse /\ UNCHANGED toks
         /\ hist' = hist \o out'
         /\ Write

Done == R!Final /\ UNCHANGED vars
Next == Choose \/ Parse \/ Done
Spec == Init /\ [][Next]_vars

(* ---- properties of the reader itself ---- *)

Count(s, o) == Len(SelectSeq(s, LAMBDA e : e.o = o))

(* the events of an accepted text are one complete graph *)
Balanced ==
  ctl = "acc" =>
    /\ Len(hist) >= 2 /\ hist[1].o = "graph" /\ hist[Len(hist)].o = "end"
    /\ Count(hist, "graph") = 1 /\ Count(hist, "end") = 1
    /\ Count(hist, "sub") = Count(hist, "endsub")
    /\ Count(hist, "gattr") = Count(hist, "endgattr")
    /\ fr = <<>>
(* only a closing brace of the graph followed by the end is accepted *)
AcceptsAtEnd == ctl = "acc" => toks[Len(toks)] = Eof
(* nothing is open once the graph is closed; depth never negative *)
DepthOK == /\ ctl \notin {"start", "kind", "gid", "gopen", "eof", "acc", "rej", "uns"} => Depth >= 1
           /\ ctl \in {"start", "kind", "gid", "gopen", "eof", "acc"} => Depth = 0
(* events only ever grow; the depth changes by at most one per step *)
Monotone == [][/\ Len(hist') >= Len(hist) /\ SubSeq(hist', 1, Len(hist)) = hist
               /\ Len(fr') - Len(fr) \in {-1, 0, 1}]_vars
(* vertices, attributes: each one in the text is in the graph *)
EqTokens == Len(SelectSeq(toks, LAMBDA i : i # Eof /\ Toks[i].tok.k = "="))
Complete == ctl = "acc" => Count(hist, "attr") + Count(hist, "assign") = EqTokens
=============================================================================
