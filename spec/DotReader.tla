------------------------------ MODULE DotReader -----------------------------
(* The reader of the DOT language: a lexer automaton that takes one          *)
(* character per step, and a pushdown parser that takes one token per step.  *)
(* The graph a text denotes is emitted as a sequence of events in postfix    *)
(* order (vertices and attributes before the statement they belong to).      *)
(*                                                                           *)
(* Verdicts: "acc" exactly one document, "rej" not a document, "uns" in the  *)
(* zone that is left open (what Graphviz or this library merely tolerates).  *)
EXTENDS DotChars, TLC

CONSTANT Text(_)          \* the text a source stands for

VARIABLES
  src,      \* what is read: Text(src) is a sequence of code points
  pos,      \* next character
  lx,       \* state of the lexer
  beg,      \* where the current token began
  dep,      \* open brackets of the current HTML string
  tok,      \* lookahead token, type "none" while the lexer is at work
  lastk,    \* kind of the last id token ("q": a + would continue it)
  ctl,      \* control state of the parser
  fr,       \* open bodies, innermost last
  nv,       \* vertices of the current statement so far
  own,      \* what the attribute list belongs to
  pid,      \* id at hand (graph, subgraph, node id or key)
  prt,      \* port id at hand
  gf,       \* [strict, di] of the graph
  out       \* events emitted by the last step

lexvars == <<pos, lx, beg, dep>>
rvars == <<src, pos, lx, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf, out>>

NoId   == [k |-> "-", t |-> <<>>]
AnonId == [k |-> "a", t |-> <<>>]
NoTok  == [t |-> "none", k |-> "", x |-> <<>>]
EofTok == [t |-> "eof", k |-> "", x |-> <<>>]

Ev(o, a, b, c, n, f) == [o |-> o, a |-> a, b |-> b, c |-> c, n |-> n, f |-> f]
Ev0(o) == Ev(o, NoId, NoId, <<>>, 0, "")

ReaderInit(s) ==
  /\ src = s
  /\ pos = 1 /\ lx = "ws" /\ beg = 1 /\ dep = 0
  /\ tok = NoTok /\ lastk = ""
  /\ ctl = "start" /\ fr = <<>> /\ nv = 0 /\ own = ""
  /\ pid = NoId /\ prt = NoId /\ gf = [strict |-> FALSE, di |-> FALSE]
  /\ out = <<>>

Final == ctl \in {"acc", "rej", "uns"}

-----------------------------------------------------------------------------
(* Lexer. Enabled while there is no lookahead token. *)

Doc == Text(src)
AtEnd == pos > Len(Doc)
Ch == IF pos <= Len(Doc) THEN Doc[pos] ELSE -1
Peek(n) == IF pos + n <= Len(Doc) THEN Doc[pos + n] ELSE -1

parserVars == <<src, ctl, fr, nv, own, pid, prt, gf>>

Lexing(m) == /\ ~Final /\ tok.t = "none" /\ lx = m
LxStay(m) == /\ lx' = m /\ pos' = pos + 1 /\ out' = <<>>
             /\ UNCHANGED <<src, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf>>
LxBegin(m, d) == /\ lx' = m /\ pos' = pos + 1 /\ beg' = pos /\ dep' = d /\ out' = <<>>
                 /\ UNCHANGED <<src, tok, lastk, ctl, fr, nv, own, pid, prt, gf>>
(* token ends before character e *)
LxToken(t, e) == /\ tok' = t /\ lx' = "ws" /\ pos' = e /\ out' = <<>>
                 /\ lastk' = IF t.t = "id" THEN t.k ELSE ""
                 /\ UNCHANGED <<src, beg, dep, ctl, fr, nv, own, pid, prt, gf>>
Verdict(v) == /\ ctl' = v /\ out' = <<>>
              /\ UNCHANGED <<src, pos, lx, beg, dep, tok, lastk, fr, nv, own, pid, prt, gf>>

TokText(e) == SubSeq(Doc, beg, e - 1)
IdTok(k, e) == [t |-> "id", k |-> k, x |-> TokText(e)]
WordTok(e) == LET kw == KeywordOf(TokText(e)) IN
              IF kw = "" THEN IdTok("p", e) ELSE [t |-> "kw", k |-> kw, x |-> <<>>]
PunctName(c) == CASE c = LCB -> "{" [] c = RCB -> "}" [] c = LBR -> "[" [] c = RBR -> "]"
                  [] c = EQ -> "=" [] c = SEMI -> ";" [] c = COMMA -> "," [] c = COLON -> ":"
                  [] OTHER -> ""
PunctTok(p) == [t |-> "p", k |-> p, x |-> <<>>]
OpTok(o)    == [t |-> "op", k |-> o, x |-> <<>>]

LexEof   == Lexing("ws") /\ AtEnd /\ LxToken(EofTok, pos)
LexBlank == /\ Lexing("ws") /\ ~AtEnd
            /\ \/ Ch \in {SP, TAB, NL} /\ LxStay("ws")
               \/ Ch = CR /\ Peek(1) = NL /\ LxStay("ws")
LexLoneCR == Lexing("ws") /\ ~AtEnd /\ Ch = CR /\ Peek(1) # NL /\ Verdict("uns")
LexBom    == Lexing("ws") /\ pos = 1 /\ ~AtEnd /\ Ch = 65279 /\ Verdict("uns")
LexWordBegin == Lexing("ws") /\ ~AtEnd /\ IsLetter(Ch) /\ ~(pos = 1 /\ Ch = 65279) /\ LxBegin("word", 0)
LexNumBegin == /\ Lexing("ws") /\ ~AtEnd
               /\ \/ IsDigit(Ch) /\ LxBegin("int", 0)
                  \/ Ch = DOT /\ LxBegin("dot", 0)
                  \/ Ch = MINUS /\ IsDigit(Peek(1)) /\ LxBegin("minus", 0)
                  \/ Ch = MINUS /\ Peek(1) = DOT /\ LxBegin("minus", 0)
LexOp == /\ Lexing("ws") /\ ~AtEnd /\ Ch = MINUS
         /\ \/ Peek(1) = MINUS /\ LxToken(OpTok("--"), pos + 2)
            \/ Peek(1) = GT /\ LxToken(OpTok("->"), pos + 2)
LexPunct == Lexing("ws") /\ ~AtEnd /\ PunctName(Ch) # "" /\ LxToken(PunctTok(PunctName(Ch)), pos + 1)
LexStrBegin == Lexing("ws") /\ ~AtEnd /\ Ch = DQ /\ LxBegin("str", 0)
LexHtmlBegin == Lexing("ws") /\ ~AtEnd /\ Ch = LT /\ LxBegin("html", 1)
LexHash == Lexing("ws") /\ ~AtEnd /\ Ch = HASH /\ LxStay("line")
LexSlash == /\ Lexing("ws") /\ ~AtEnd /\ Ch = SLASH
            /\ \/ Peek(1) = SLASH /\ LxStay("line")
               \/ Peek(1) = STAR /\ LxStay("open")
LexConcat == Lexing("ws") /\ ~AtEnd /\ Ch = PLUS /\ Verdict(IF lastk = "q" THEN "uns" ELSE "rej")
LexStray == /\ Lexing("ws") /\ ~AtEnd
            /\ ~(Ch \in {SP, TAB, NL, CR, DOT, DQ, LT, HASH, PLUS})
            /\ ~IsLetter(Ch) /\ ~IsDigit(Ch) /\ PunctName(Ch) = ""
            /\ ~(Ch = MINUS /\ (Peek(1) \in {MINUS, GT, DOT} \/ IsDigit(Peek(1))))
            /\ ~(Ch = SLASH /\ Peek(1) \in {SLASH, STAR})
            /\ Verdict("rej")

LexLine == /\ Lexing("line")
           /\ \/ AtEnd /\ LxToken(EofTok, pos)
              \/ ~AtEnd /\ Ch = NL /\ LxStay("ws")
              \/ ~AtEnd /\ Ch = CR /\ Peek(1) # NL /\ Verdict("uns")
              \/ ~AtEnd /\ Ch = CR /\ Peek(1) = NL /\ LxStay("line")
              \/ ~AtEnd /\ Ch \notin {NL, CR} /\ LxStay("line")
LexOpen == Lexing("open") /\ LxStay("block")          \* the * of /*
LexBlock == /\ Lexing("block")
            /\ \/ AtEnd /\ Verdict("rej")
               \/ ~AtEnd /\ Ch = STAR /\ Peek(1) = SLASH /\ LxStay("close")
               \/ ~AtEnd /\ ~(Ch = STAR /\ Peek(1) = SLASH) /\ LxStay("block")
LexClose == Lexing("close") /\ LxStay("ws")           \* the / of */

LexWord == /\ Lexing("word")
           /\ \/ ~AtEnd /\ IsWordChar(Ch) /\ LxStay("word")
              \/ (AtEnd \/ ~IsWordChar(Ch)) /\ LxToken(WordTok(pos), pos)

(* a numeral ends where its spelling ends, whatever follows *)
NumEnd == LxToken(IdTok("p", pos), pos)
LexMinus == /\ Lexing("minus")
            /\ \/ IsDigit(Ch) /\ LxStay("int")
               \/ Ch = DOT /\ LxStay("dot")
LexDot  == /\ Lexing("dot")
           /\ \/ ~AtEnd /\ IsDigit(Ch) /\ LxStay("frac")
              \/ (AtEnd \/ ~IsDigit(Ch)) /\ Verdict("rej")
LexInt  == /\ Lexing("int")
           /\ \/ ~AtEnd /\ IsDigit(Ch) /\ LxStay("int")
              \/ ~AtEnd /\ Ch = DOT /\ LxStay("frac")
              \/ (AtEnd \/ ~(IsDigit(Ch) \/ Ch = DOT)) /\ NumEnd
LexFrac == /\ Lexing("frac")
           /\ \/ ~AtEnd /\ IsDigit(Ch) /\ LxStay("frac")
              \/ (AtEnd \/ ~IsDigit(Ch)) /\ NumEnd

LexStr == /\ Lexing("str")
          /\ \/ AtEnd /\ Verdict("rej")
             \/ ~AtEnd /\ Ch = BSL /\ LxStay("esc")
             \/ ~AtEnd /\ Ch = DQ /\ LxToken(IdTok("q", pos + 1), pos + 1)
             \/ ~AtEnd /\ Ch \notin {BSL, DQ} /\ LxStay("str")
LexEsc == /\ Lexing("esc")
          /\ \/ AtEnd /\ Verdict("rej")
             \/ ~AtEnd /\ LxStay("str")

LexHtml ==
  /\ Lexing("html")
  /\ \/ AtEnd /\ Verdict("rej")
     \/ ~AtEnd /\ Ch = LT /\ Peek(1) = BANG /\ Verdict("uns")
     \/ ~AtEnd /\ Ch = GT /\ dep = 1 /\ LxToken(IdTok("h", pos + 1), pos + 1)
     \/ /\ ~AtEnd /\ ~(Ch = GT /\ dep = 1) /\ ~(Ch = LT /\ Peek(1) = BANG)
        /\ dep' = IF Ch = LT THEN dep + 1 ELSE IF Ch = GT THEN dep - 1 ELSE dep
        /\ pos' = pos + 1 /\ out' = <<>>
        /\ UNCHANGED <<src, lx, beg, tok, lastk, ctl, fr, nv, own, pid, prt, gf>>

Lex == \/ LexEof \/ LexBlank \/ LexLoneCR \/ LexBom \/ LexWordBegin \/ LexNumBegin \/ LexOp
       \/ LexPunct \/ LexStrBegin \/ LexHtmlBegin \/ LexHash \/ LexSlash \/ LexConcat \/ LexStray
       \/ LexLine \/ LexOpen \/ LexBlock \/ LexClose \/ LexWord \/ LexMinus \/ LexDot \/ LexInt
       \/ LexFrac \/ LexStr \/ LexEsc \/ LexHtml

-----------------------------------------------------------------------------
(* Parser. Enabled while there is a lookahead token. *)

At(c) == ~Final /\ tok.t # "none" /\ ctl = c
IsP(p)  == tok.t = "p" /\ tok.k = p
IsKw(k) == tok.t = "kw" /\ tok.k = k
IsId    == tok.t = "id"
TheId   == [k |-> tok.k, t |-> tok.x]

Take == tok' = NoTok
Keep == UNCHANGED tok
Go(c, evs) == ctl' = c /\ out' = evs /\ UNCHANGED <<src, pos, lx, beg, dep, lastk>>
Stop(v) == /\ ctl' = v /\ out' = <<>>
           /\ UNCHANGED <<src, pos, lx, beg, dep, lastk, tok, fr, nv, own, pid, prt, gf>>

(* what is found instead: a keyword where an id stands is left open *)
Else == IF tok.t = "kw" THEN Stop("uns") ELSE Stop("rej")

Start ==
  /\ At("start")
  /\ IF IsKw("strict")
     THEN Take /\ gf' = [gf EXCEPT !.strict = TRUE] /\ Go("kind", <<>>) /\ UNCHANGED <<fr, nv, own, pid, prt>>
     ELSE IF IsKw("graph") \/ IsKw("digraph")
     THEN Take /\ gf' = [gf EXCEPT !.di = (tok.k = "digraph")] /\ Go("gid", <<>>) /\ UNCHANGED <<fr, nv, own, pid, prt>>
     ELSE Stop("rej")

GraphKind ==
  /\ At("kind")
  /\ IF IsKw("graph") \/ IsKw("digraph")
     THEN Take /\ gf' = [gf EXCEPT !.di = (tok.k = "digraph")] /\ Go("gid", <<>>) /\ UNCHANGED <<fr, nv, own, pid, prt>>
     ELSE Stop("rej")

GraphFlag == IF gf.di THEN (IF gf.strict THEN "sd" ELSE "d") ELSE (IF gf.strict THEN "sg" ELSE "g")
OpenGraph(i) == /\ Take /\ fr' = <<[w |-> "g", n |-> 0]>> /\ nv' = 0
                /\ Go("stmt", <<Ev("graph", i, NoId, <<>>, 0, GraphFlag)>>)
                /\ UNCHANGED <<own, pid, prt, gf>>

GraphId ==
  /\ At("gid")
  /\ IF IsId THEN Take /\ pid' = TheId /\ Go("gopen", <<>>) /\ UNCHANGED <<fr, nv, own, prt, gf>>
     ELSE IF IsP("{") THEN OpenGraph(AnonId) ELSE Else
GraphOpen == At("gopen") /\ IF IsP("{") THEN OpenGraph(pid) ELSE Stop("rej")

OpenSub(i) == /\ Take /\ fr' = Append(fr, [w |-> "s", n |-> nv]) /\ nv' = 0
              /\ Go("stmt", <<Ev("sub", i, NoId, <<>>, 0, "")>>)
              /\ UNCHANGED <<own, pid, prt, gf>>
CloseBody ==
  LET f == fr[Len(fr)] IN
  /\ Take /\ fr' = SubSeq(fr, 1, Len(fr) - 1)
  /\ IF f.w = "g" THEN Go("eof", <<Ev0("end")>>) /\ UNCHANGED <<nv, own>>
     ELSE Go("vert", <<Ev0("endsub")>>) /\ nv' = f.n + 1 /\ own' = "s"
  /\ UNCHANGED <<pid, prt, gf>>

Statement ==
  /\ At("stmt")
  /\ IF IsP("}") THEN CloseBody
     ELSE IF IsKw("graph") \/ IsKw("node") \/ IsKw("edge")
     THEN Take /\ own' = tok.k /\ Go("gattr", <<>>) /\ UNCHANGED <<fr, nv, pid, prt, gf>>
     ELSE IF IsKw("subgraph") THEN Take /\ nv' = 0 /\ Go("subkw", <<>>) /\ UNCHANGED <<fr, own, pid, prt, gf>>
     ELSE IF IsP("{") THEN Keep /\ nv' = 0 /\ Go("subkw", <<>>) /\ UNCHANGED <<fr, own, pid, prt, gf>>
     ELSE IF IsId THEN Take /\ pid' = TheId /\ nv' = 0 /\ Go("afterid", <<>>) /\ UNCHANGED <<fr, own, prt, gf>>
     ELSE Else

SubgraphKw ==
  /\ At("subkw")
  /\ IF IsP("{") THEN OpenSub(AnonId)
     ELSE IF IsId THEN Take /\ pid' = TheId /\ Go("subopen", <<>>) /\ UNCHANGED <<fr, nv, own, prt, gf>>
     ELSE Else
SubgraphOpen == At("subopen") /\ IF IsP("{") THEN OpenSub(pid) ELSE Stop("rej")

NodeIdDone(p, c) ==
  /\ Go("vert", <<Ev("nid", pid, p, c, 0, "")>>) /\ nv' = nv + 1 /\ own' = "n"
  /\ UNCHANGED <<fr, pid, prt, gf>>

AfterId ==
  /\ At("afterid")
  /\ IF IsP("=") /\ nv = 0 THEN Take /\ Go("bval", <<>>) /\ UNCHANGED <<fr, nv, own, pid, prt, gf>>
     ELSE IF IsP(":") THEN Take /\ Go("port", <<>>) /\ UNCHANGED <<fr, nv, own, pid, prt, gf>>
     ELSE Keep /\ NodeIdDone(NoId, <<>>)

Assignment ==
  /\ At("bval")
  /\ IF IsId THEN Take /\ Go("stmtend", <<Ev("assign", pid, TheId, <<>>, 0, "")>>) /\ UNCHANGED <<fr, nv, own, pid, prt, gf>>
     ELSE Else

PortId ==
  /\ At("port")
  /\ IF IsId THEN Take /\ prt' = TheId /\ Go("port2", <<>>) /\ UNCHANGED <<fr, nv, own, pid, gf>>
     ELSE Else
PortEnd ==
  /\ At("port2")
  /\ IF IsP(":") THEN Take /\ Go("compass", <<>>) /\ UNCHANGED <<fr, nv, own, pid, prt, gf>>
     ELSE /\ Keep
          /\ IF prt.k = "p" /\ IsCompass(prt.t) THEN NodeIdDone(NoId, prt.t) ELSE NodeIdDone(prt, <<>>)
Compass ==
  /\ At("compass")
  /\ IF IsId /\ tok.k = "p" /\ IsCompass(tok.x) THEN Take /\ NodeIdDone(prt, tok.x)
     ELSE IF IsId /\ tok.k = "q" /\ IsQuotedCompass(tok.x) THEN Stop("uns")
     ELSE Stop("rej")

(* after a vertex: own says whether the last one was a node id or a subgraph *)
AfterVertex ==
  /\ At("vert")
  /\ IF tok.t = "op"
     THEN IF (tok.k = "->") = gf.di
          THEN Take /\ Go("nextv", <<>>) /\ UNCHANGED <<fr, nv, own, pid, prt, gf>>
          ELSE Stop("uns")
     ELSE IF IsP("[") /\ nv = 1 /\ own = "s" THEN Stop("uns")
     ELSE IF IsP("[") THEN Take /\ own' = "v" /\ Go("attr", <<>>) /\ UNCHANGED <<fr, nv, pid, prt, gf>>
     ELSE IF nv = 1 /\ own = "s" THEN Keep /\ Go("stmtend", <<Ev0("substmt")>>) /\ UNCHANGED <<fr, nv, own, pid, prt, gf>>
     ELSE Keep /\ own' = "v" /\ Go("listend", <<>>) /\ UNCHANGED <<fr, nv, pid, prt, gf>>

NextVertex ==
  /\ At("nextv")
  /\ IF IsId THEN Take /\ pid' = TheId /\ Go("afterid", <<>>) /\ UNCHANGED <<fr, nv, own, prt, gf>>
     ELSE IF IsKw("subgraph") THEN Take /\ Go("subkw", <<>>) /\ UNCHANGED <<fr, nv, own, pid, prt, gf>>
     ELSE IF IsP("{") THEN Keep /\ Go("subkw", <<>>) /\ UNCHANGED <<fr, nv, own, pid, prt, gf>>
     ELSE Else

DefaultAttrs ==
  /\ At("gattr")
  /\ IF IsP("[") THEN Take /\ Go("attr", <<Ev("gattr", NoId, NoId, <<>>, 0, own)>>) /\ UNCHANGED <<fr, nv, own, pid, prt, gf>>
     ELSE Stop("uns")

AttrKey ==
  /\ At("attr")
  /\ IF IsP("]") THEN Take /\ Go("more", <<>>) /\ UNCHANGED <<fr, nv, own, pid, prt, gf>>
     ELSE IF IsId THEN Take /\ pid' = TheId /\ Go("aeq", <<>>) /\ UNCHANGED <<fr, nv, own, prt, gf>>
     ELSE Else
AttrEq == At("aeq") /\ IF IsP("=") THEN Take /\ Go("aval", <<>>) /\ UNCHANGED <<fr, nv, own, pid, prt, gf>>
                       ELSE Stop("rej")
AttrValue ==
  /\ At("aval")
  /\ IF IsId THEN Take /\ Go("asep", <<Ev("attr", pid, TheId, <<>>, 0, "")>>) /\ UNCHANGED <<fr, nv, own, pid, prt, gf>>
     ELSE Else
AttrSep ==
  /\ At("asep")
  /\ (IF IsP(",") \/ IsP(";") THEN Take ELSE Keep) /\ Go("attr", <<>>) /\ UNCHANGED <<fr, nv, own, pid, prt, gf>>
MoreLists ==
  /\ At("more")
  /\ IF IsP("[") THEN Take /\ Go("attr", <<>>) /\ UNCHANGED <<fr, nv, own, pid, prt, gf>>
     ELSE Keep /\ Go("listend", <<>>) /\ UNCHANGED <<fr, nv, own, pid, prt, gf>>

(* all attributes are read: the statement is complete *)
ListEnd ==
  /\ At("listend")
  /\ Keep
  /\ Go("stmtend", <<IF own # "v" THEN Ev0("endgattr")
                     ELSE IF nv = 1 THEN Ev0("node")
                     ELSE Ev("edge", NoId, NoId, <<>>, nv, IF nv = 2 THEN "pair" ELSE "chain")>>)
  /\ UNCHANGED <<fr, nv, own, pid, prt, gf>>

StatementEnd ==
  /\ At("stmtend")
  /\ (IF IsP(";") THEN Take ELSE Keep) /\ Go("stmt", <<>>) /\ UNCHANGED <<fr, nv, own, pid, prt, gf>>

DocumentEnd == At("eof") /\ IF tok.t = "eof" THEN Stop("acc") ELSE Stop("rej")

Parse == \/ Start \/ GraphKind \/ GraphId \/ GraphOpen \/ Statement \/ SubgraphKw \/ SubgraphOpen
         \/ AfterId \/ Assignment \/ PortId \/ PortEnd \/ Compass \/ AfterVertex \/ NextVertex
         \/ DefaultAttrs \/ AttrKey \/ AttrEq \/ AttrValue \/ AttrSep \/ MoreLists \/ ListEnd
         \/ StatementEnd \/ DocumentEnd

ReaderNext == Lex \/ Parse
=============================================================================
