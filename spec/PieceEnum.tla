------------------------------ MODULE PieceEnum -----------------------------
(* Exhaustive exploration of the whole reader (lexer and parser) over short  *)
(* texts: every sequence of pieces up to a bound, put into a context. Every  *)
(* text with a verdict is written out with the events it denotes.            *)
EXTENDS Integers, Sequences, Json, IOUtils, CSV

Cfgs == JsonDeserialize(IOEnv.CFG)   \* seq of [pre, suf, pieces, max]
Self(s) == s

VARIABLES src, pos, lx, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf, out
VARIABLES hist
R == INSTANCE DotReader WITH Text <- Self
vars == <<src, pos, lx, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf, out, hist>>

RECURSIVE Cat(_, _, _)
Cat(ps, f, i) == IF i > Len(f) THEN <<>> ELSE ps[f[i]] \o Cat(ps, f, i + 1)

Init == /\ \E c \in 1..Len(Cfgs) : \E n \in 0..Cfgs[c].max :
             \E f \in [1..n -> 1..Len(Cfgs[c].pieces)] :
               R!ReaderInit(Cfgs[c].pre \o Cat(Cfgs[c].pieces, f, 1) \o Cfgs[c].suf)
        /\ hist = <<>>

Step == /\ R!ReaderNext
        /\ hist' = hist \o out'
        /\ ctl' \in {"acc", "rej"} =>
             CSVWrite("%1$s", <<ToJson([v |-> ctl', doc |-> src, ev |-> IF ctl' = "acc" THEN hist' ELSE <<>>])>>, IOEnv.OUT)
Done == R!Final /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

(* the lexer only moves forward, and an accepted text is read to its end *)
Forward == [][pos' >= pos]_vars
ReadAll == ctl = "acc" => pos > Len(src)
(* ids of the graph are pieces of the text, kinds fit their spelling *)
IdOK(i) == CASE i.k = "q" -> Len(i.t) >= 2 /\ i.t[1] = 34 /\ i.t[Len(i.t)] = 34
             [] i.k = "h" -> Len(i.t) >= 2 /\ i.t[1] = 60 /\ i.t[Len(i.t)] = 62
             [] i.k = "p" -> Len(i.t) >= 1 /\ \A n \in 1..Len(i.t) : R!IsWordChar(i.t[n]) \/ i.t[n] \in {45, 46}
             [] OTHER     -> i.t = <<>>
Spelling == \A n \in 1..Len(out) : IdOK(out[n].a) /\ IdOK(out[n].b)
=============================================================================
