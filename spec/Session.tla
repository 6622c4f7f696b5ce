------------------------------- MODULE Session ------------------------------
(* One printer context over its life: settings are made, graphs and single   *)
(* elements are printed. Nothing but the settings and the edge operator of   *)
(* the last graph is remembered.                                             *)
EXTENDS Layout

VARIABLES
  S,      \* settings in force
  di,     \* was the last printed graph a digraph
  text    \* what the last call returned, <<>> for a setter

svars == <<S, di, text>>

DefaultS == [ls |-> <<NL>>, step |-> 2, size |-> 90, semi |-> FALSE, multi |-> FALSE, comma |-> TRUE, fm |-> <<>>]
NewS(semi, step, ls, size) == [DefaultS EXCEPT !.semi = semi, !.step = step, !.ls = ls, !.size = size]

SessionInit(s) == S = s /\ di = FALSE /\ text = <<>>

Set(s) == S' = s /\ text' = <<>> /\ UNCHANGED di
AlwaysInline    == Set([S EXCEPT !.ls = <<>>])
WithLineSep(ls) == Set([S EXCEPT !.ls = ls])
WithSemi        == Set([S EXCEPT !.semi = TRUE])
WithMulti       == Set([S EXCEPT !.multi = TRUE])
WithNoComma     == Set([S EXCEPT !.comma = FALSE])
WithStep(n)     == Set([S EXCEPT !.step = n])
WithSize(n)     == Set([S EXCEPT !.size = n])
WithPrinter(i, tag) == Set([S EXCEPT !.fm = Append(SelectSeq(@, LAMBDA p : p.id # i), [id |-> i, tag |-> tag])])

PrintGraph(g) == text' = GraphText(g, S) /\ di' = g.di /\ UNCHANGED S
PrintElem(x)  == text' = ElemText(x, S, di) /\ UNCHANGED <<S, di>>
=============================================================================
