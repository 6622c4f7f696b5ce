----------------------------- MODULE SessionEnum ----------------------------
(* Every history of calls on one printer context up to a bound. Written out  *)
(* with the settings and the edge operator in force at every print.          *)
EXTENDS Session, Json, IOUtils, CSV

Cfg == JsonDeserialize(IOEnv.CFG)   \* [calls: alphabet of calls, max]
VARIABLE hist                       \* calls with the state each print found
vars == <<S, di, text, hist>>

Init == SessionInit(DefaultS) /\ hist = <<>>

Note(c) == hist' = Append(hist, [c |-> c, set |-> S, di |-> di])
Do(c) ==
  LET x == Cfg.calls[c] IN
  /\ CASE x.op = "inline"  -> AlwaysInline
       [] x.op = "sep"     -> WithLineSep(x.ls)
       [] x.op = "semi"    -> WithSemi
       [] x.op = "multi"   -> WithMulti
       [] x.op = "nocomma" -> WithNoComma
       [] x.op = "step"    -> WithStep(x.n)
       [] x.op = "size"    -> WithSize(x.n)
       [] x.op = "printer" -> WithPrinter(x.id, x.tag)
       [] x.op = "graph"   -> di' = x.x.di /\ text' = <<>> /\ UNCHANGED S
       [] x.op = "elem"    -> text' = <<>> /\ UNCHANGED <<S, di>>
  /\ Note(c)
IsPrint(c) == Cfg.calls[c].op \in {"graph", "elem"}

Next == /\ Len(hist) < Cfg.max
        /\ \E c \in 1..Len(Cfg.calls) : Do(c)
        \* every history that ends in a print
        /\ IsPrint(hist'[Len(hist')].c) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT)
Spec == Init /\ [][Next]_vars

(* prints change no setting *)
PrintsLeaveSettings == [][IsPrint(hist'[Len(hist')].c) => S' = S]_vars
(* the last of inline and separator wins, the others stay once made *)
Sticky == [][/\ S.semi => S'.semi
             /\ S.multi => S'.multi
             /\ ~S.comma => ~S'.comma]_vars
(* at most one printer per id *)
OnePerId == \A a, b \in 1..Len(S.fm) : S.fm[a].id = S.fm[b].id => a = b
=============================================================================
