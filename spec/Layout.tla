------------------------------- MODULE Layout -------------------------------
(* The printed text as a function of what is printed and of the settings.    *)
(*                                                                           *)
(* Settings S: [ls: line separator, <<>> is inline mode; step, size, semi,   *)
(* multi, comma; fm: registered value printers, a sequence of [id, tag]].    *)
(* Place cx: [ls: separator in force, ind: indent in force].                 *)
(* Graphs are trees of records, see GraphText and StmtText.                  *)
EXTENDS DotChars, FiniteSets, TLC

Blanks(n) == TLCEval([i \in 1..n |-> SP])

(* concatenation of f[a] .. f[b], halving keeps it shallow *)
RECURSIVE CatFrom(_, _, _)
CatFrom(f, a, b) ==
  IF a > b THEN <<>>
  ELSE IF a = b THEN f[a]
  ELSE LET m == (a + b) \div 2 IN CatFrom(f, a, m) \o CatFrom(f, m + 1, b)
Cat(f0) == LET f == TLCEval(f0) IN CatFrom(f, 1, Len(f))
(* joined with a separator *)
Joined(f0, sep) == LET f == TLCEval(f0) IN Cat([i \in 1..Len(f) |-> IF i = 1 THEN f[1] ELSE sep \o f[i]])

CodeBytes(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE BytesFrom(_, _, _)
BytesFrom(s, a, b) ==
  IF a > b THEN 0
  ELSE IF a = b THEN CodeBytes(s[a])
  ELSE LET m == (a + b) \div 2 IN BytesFrom(s, a, m) + BytesFrom(s, m + 1, b)
Bytes(s) == BytesFrom(s, 1, Len(s))

RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE DigitsOf(n \div 10) \o <<48 + (n % 10)>>

T_sub == K_subgraph \o <<SP>>

-----------------------------------------------------------------------------
Inline(cx) == cx.ls = <<>>
IndentText(cx) == IF Inline(cx) THEN <<>> ELSE Blanks(cx.ind)
Deeper(cx, S) == IF Inline(cx) THEN cx ELSE [cx EXCEPT !.ind = @ + S.step]
TopCx(S) == [ls |-> S.ls, ind |-> 0]

IdText(i) == IF i.k = "a" THEN <<>> ELSE i.t
NidText(x) == IdText(x.id)
              \o (IF x.port.k = "-" THEN <<>> ELSE <<COLON>> \o IdText(x.port))
              \o (IF x.comp = <<>> THEN <<>> ELSE <<COLON>> \o x.comp)

(* the value printer registered for a key: the last one wins *)
PrinterFor(key, S) == { n \in 1..Len(S.fm) : S.fm[n].id = key }
(* the value printers of the model, by what their tag begins with: K gives    *)
(* the rest of the tag, V the value and the rest, W the rest and the value,   *)
(* all others show everything they are given                                  *)
Formatted(tag, val, cx, S) ==
  LET kind == IF tag = <<>> THEN 0 ELSE tag[1] IN
  CASE kind = 75 -> Tail(tag)
    [] kind = 86 -> val \o Tail(tag)
    [] kind = 87 -> Tail(tag) \o val
    [] OTHER -> tag \o <<LT>> \o val \o <<124>> \o cx.ls \o <<124>> \o IndentText(cx) \o <<124>> \o DigitsOf(S.step) \o <<GT>>
AttrText(a, cx, S) ==
  LET ps == PrinterFor(a.key, S)
      v  == IdText(a.val)
  IN  IdText(a.key) \o <<EQ>> \o
      (IF ps = {} THEN v
       ELSE Formatted(S.fm[CHOOSE n \in ps : \A m \in ps : m <= n].tag, v, cx, S))

(* the values are printed at the outer indent, also when they go on their own lines *)
AttrsText(as, cx, S) ==
  LET one == TLCEval([i \in 1..Len(as) |-> AttrText(as[i], cx, S)])
      in_ == Deeper(cx, S)
      sep == (IF Inline(cx) \/ S.comma THEN <<COMMA>> ELSE <<>>) \o cx.ls \o IndentText(in_)
  IN  IF as = <<>> THEN <<>>
      ELSE IF Len(as) > 1 /\ S.multi
      THEN <<LBR>> \o cx.ls \o IndentText(in_) \o Joined(one, sep) \o cx.ls \o IndentText(cx) \o <<RBR>>
      ELSE <<LBR>> \o Joined(one, <<SP>>) \o <<RBR>>

GattrText(x, cx, S) ==
  (CASE x.ty = "graph" -> K_graph [] x.ty = "node" -> K_node [] x.ty = "edge" -> K_edge)
  \o (IF x.at = <<>> THEN <<LBR, RBR>> ELSE AttrsText(x.at, cx, S))

NodeText(x, cx, S) == NidText(x.nid) \o AttrsText(x.at, cx, S)
Bond(di) == IF di THEN <<MINUS, GT>> ELSE <<MINUS, MINUS>>

RECURSIVE StmtText(_, _, _, _), BodyText(_, _, _, _), SubText(_, _, _, _), VertexText(_, _, _, _),
          EdgeWith(_, _, _, _), EdgeText(_, _, _, _)

VertexText(v, cx, S, di) == IF v.o = "nid" THEN NidText(v) ELSE SubText(v, cx, S, di)

EdgeWith(e, cx, S, di) ==
  LET vs == TLCEval([i \in 1..Len(e.vs) |-> VertexText(e.vs[i], cx, S, di)])
  IN  Joined(vs, <<SP>> \o Bond(di) \o <<SP>>)
      \o (IF e.at # <<>> /\ e.pair THEN <<SP>> ELSE <<>>)
      \o AttrsText(e.at, cx, S)

(* on one line if the several-line form is short enough *)
EdgeText(e, cx, S, di) ==
  LET text == TLCEval(EdgeWith(e, cx, S, di))
  IN  IF ~Inline(cx) /\ Bytes(text) <= S.size
      THEN EdgeWith(e, [cx EXCEPT !.ls = <<>>], S, di)
      ELSE text

SubText(x, cx, S, di) ==
  T_sub \o IdText(x.id) \o <<SP, LCB>> \o cx.ls
  \o BodyText(x.body, Deeper(cx, S), S, di)
  \o cx.ls \o IndentText(cx) \o <<RCB>>

StmtText(x, cx, S, di) ==
  CASE x.o = "node"   -> NodeText(x, cx, S)
    [] x.o = "sub"    -> SubText(x, cx, S, di)
    [] x.o = "assign" -> AttrText(x, cx, S)
    [] x.o = "gattr"  -> GattrText(x, cx, S)
    [] x.o = "edge"   -> EdgeText(x, cx, S, di)

(* two statements next to each other on one line need a blank unless a bracket *)
(* or a semicolon already stands between them                                  *)
BodyText(b, cx, S, di) ==
  LET one == TLCEval([i \in 1..Len(b) |->
                IndentText(cx) \o StmtText(b[i], cx, S, di) \o (IF S.semi THEN <<SEMI>> ELSE <<>>)])
      sep(i) == cx.ls \o (IF Inline(cx) /\ one[i - 1][Len(one[i - 1])] \notin {RBR, RCB, SEMI} THEN <<SP>> ELSE <<>>)
  IN  Cat([i \in 1..Len(b) |-> IF i = 1 THEN one[1] ELSE sep(i) \o one[i]])

GraphText(g, S) ==
  LET cx == TopCx(S) IN
  (IF g.strict THEN K_strict \o <<SP>> ELSE <<>>) \o (IF g.di THEN K_digraph ELSE K_graph)
  \o <<SP>> \o IdText(g.id) \o <<SP, LCB>> \o cx.ls
  \o BodyText(g.body, Deeper(cx, S), S, g.di)
  \o cx.ls \o <<RCB>>

(* a single element on its own is not indented *)
ElemText(x, S, di) ==
  LET cx == TopCx(S) IN
  CASE x.o = "graph" -> GraphText(x, S)
    [] x.o = "nid"   -> NidText(x)
    [] x.o = "attrs" -> AttrsText(x.at, cx, S)
    [] x.o = "stmt"  -> BodyText(<<x.stmt>>, cx, S, di)     \* Stmt::print, with its semicolon
    [] x.o = "body"  -> BodyText(x.body, cx, S, di)
    [] x.o = "id"    -> IdText(x.id)
    [] OTHER         -> StmtText(x, cx, S, di)

-----------------------------------------------------------------------------
(* The events a reader of the text has to find. *)

NoI == [k |-> "-", t |-> <<>>]
E(o, a, b, c, n, f) == <<[o |-> o, a |-> a, b |-> b, c |-> c, n |-> n, f |-> f]>>
E0(o) == E(o, NoI, NoI, <<>>, 0, "")
NidEv(x) == E("nid", x.id, x.port, x.comp, 0, "")
AttrEv(as) == [i \in 1..Len(as) |-> [o |-> "attr", a |-> as[i].key, b |-> as[i].val, c |-> <<>>, n |-> 0, f |-> ""]]

RECURSIVE StmtEv(_), BodyEv(_), SubEv(_)
SubEv(x) == E("sub", x.id, NoI, <<>>, 0, "") \o BodyEv(x.body) \o E0("endsub")
VertexEv(v) == IF v.o = "nid" THEN NidEv(v) ELSE SubEv(v)
StmtEv(x) ==
  CASE x.o = "node"   -> NidEv(x.nid) \o AttrEv(x.at) \o E0("node")
    [] x.o = "sub"    -> SubEv(x) \o E0("substmt")
    [] x.o = "assign" -> E("assign", x.key, x.val, <<>>, 0, "")
    [] x.o = "gattr"  -> E("gattr", NoI, NoI, <<>>, 0, x.ty) \o AttrEv(x.at) \o E0("endgattr")
    [] x.o = "edge"   -> Cat([i \in 1..Len(x.vs) |-> VertexEv(x.vs[i])]) \o AttrEv(x.at)
                         \o E("edge", NoI, NoI, <<>>, Len(x.vs), IF x.pair THEN "pair" ELSE "chain")
BodyEv(b) == Cat([i \in 1..Len(b) |-> StmtEv(b[i])])
GraphEv(g) ==
  E("graph", g.id, NoI, <<>>, 0, IF g.di THEN (IF g.strict THEN "sd" ELSE "d") ELSE (IF g.strict THEN "sg" ELSE "g"))
  \o BodyEv(g.body) \o E0("end")
=============================================================================
