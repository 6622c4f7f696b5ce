------------------------------ MODULE BuildEnum -----------------------------
(* Every form of every builder, with its arguments from small pools and its  *)
(* items in every order up to a bound. Each term is written out with the     *)
(* element it has to make, for a program made of these terms.                *)
EXTENDS Builder, Json, IOUtils, CSV

Cfg == JsonDeserialize(IOEnv.CFG)
\* [exprs, few, many: expressions, dirs: compass texts, len: most items, every, seed]

VARIABLES term, done
vars == <<term, done>>

Pre == {"", "esc", "html"}
E == 1..Len(Cfg.exprs)
X(i) == <<Cfg.exprs[i]>>
Lit(i) == <<Cfg.few[i]>>
D(i) == <<Cfg.dirs[i]>>

Id(pre, e) == T("id", pre, e, <<>>, "none", <<>>)
Port(sub, e) == T("port", "", e, sub, "none", <<>>)
Nid(pre, e, sub) == T("nid", pre, e, sub, "none", <<>>)
Attr(pk, k, pv, v) == T("attr", pk, k, <<Id(pv, v)>>, "none", <<>>)
Attrs(ty, form, items) == T("attrs", ty, <<>>, <<>>, form, items)
Node(pre, e, sub, form, items) == T("node", pre, e, sub, form, items)
Edge(vs, form, items) == T("edge", "", <<>>, vs, form, items)
Sub(pre, e, form, items) == T("sub", pre, e, <<>>, form, items)
Graph(pre, id, form, items) == T("graph", pre, <<>>, <<id>>, form, items)
One(m, x) == T(m, "", <<>>, <<x>>, "none", <<>>)

(* pools of arguments *)
Ids == <<Id("", <<>>), Id("", Lit(1)), Id("esc", Lit(2)), Id("html", Lit(3)), Id("", Lit(4))>>
Ports == <<Port(<<>>, D(2)), Port(<<Ids[2]>>, <<>>), Port(<<Ids[3]>>, D(1)), Port(<<>>, <<>>)>>
As == <<Attr("", Lit(1), "", Lit(4)), Attr("", Lit(2), "esc", Lit(2)), Attr("html", Lit(3), "", Lit(1))>>
Nids == <<Nid("", Lit(1), <<>>), Nid("esc", Lit(2), <<Ports[1]>>)>>
Edge1 == Edge(<<Nids[1], Nids[2]>>, "seq", <<As[2]>>)
Chain(vs, items) == T("chain", "", <<>>, vs, "vec", items)
Hand == <<Chain(<<Nids[1], Nids[2]>>, <<>>), Chain(<<Nids[1], Nids[1]>>, <<As[1], As[1]>>), Chain(<<Nids[2], Nids[1], Nids[2]>>, <<As[2]>>)>>
Sub1 == Sub("", Lit(4), "seq", <<Edge1>>)
Subs == <<Sub("", <<>>, "none", <<>>), Sub1>>
Verts == <<Nids[1], Nids[2], Subs[1], Subs[2]>>
St == <<Node("", Lit(1), <<>>, "none", <<>>), Edge1, As[1], Attrs("node", "seq", <<As[1]>>), Sub1, One("stmt", Node("esc", Lit(2), <<>>, "vec", <<As[3]>>))>>

(* a subgraph with a single statement in it, of every kind *)
Single == { Sub(o[1], o[2], "seq", <<x>>) : o \in {<<"", <<>>>>, <<"", Lit(1)>>, <<"esc", <<Cfg.empty>>>>},
                                            x \in {St[k] : k \in 1..Len(St)} \cup {Hand[1], Subs[1], Sub("", Lit(1), "none", <<>>), Sub("", <<>>, "seq", <<Subs[1]>>)} }
(* texts an id may have, in every place it may stand *)
Spelled(x) ==
  { Id(p, <<x>>) : p \in Pre } \cup { Attr(p, <<x>>, "", Lit(1)) : p \in Pre } \cup { Attr("", Lit(1), p, <<x>>) : p \in Pre }
  \cup { Nid(p, <<x>>, <<Ports[2]>>) : p \in Pre } \cup { Node(p, <<x>>, <<>>, "none", <<>>) : p \in Pre } \cup { Sub(p, <<x>>, "seq", <<St[1]>>) : p \in Pre }
  \cup { Port(<<Id(p, <<x>>)>>, D(1)) : p \in Pre } \cup { Graph("di", Id(p, <<x>>), "none", <<>>) : p \in Pre } \cup {Port(<<>>, <<x>>)}

Seqs(S, lo, hi) == UNION { [1..n -> S] : n \in lo..hi }
Pick(pool, f) == [i \in 1..Len(f) |-> pool[f[i]]]
(* many different ones: the first n, of either form *)
Big == Len(Cfg.many)
M(i) == <<Cfg.many[i]>>
ManyAs == [i \in 1..Big |-> Attr("", M(i), <<"", "esc", "html">>[1 + (i % 3)], M(Big + 1 - i))]
ManyNids == [i \in 1..Big |-> Nid("", M(i), IF i % 3 = 0 THEN <<Ports[1 + (i % 4)]>> ELSE <<>>)]
ManySts == [i \in 1..Big |-> CASE i % 5 = 0 -> Edge(<<ManyNids[i], ManyNids[1]>>, "seq", <<ManyAs[i]>>) [] i % 5 = 1 -> Node("", M(i), <<>>, "none", <<>>)
                                 [] i % 5 = 2 -> ManyAs[i] [] i % 5 = 3 -> Sub("", M(i), "seq", <<ManyAs[i]>>) [] OTHER -> Attrs("edge", "vec", <<ManyAs[i]>>)]
FirstOf(n, pool) == { <<"vec", SubSeq(pool, 1, n)>>, <<"seq", SubSeq(pool, 1, n)>> }
FirstStmts(n) == { <<"vec", [i \in 1..n |-> One("stmt", ManySts[i])]>>, <<"seq", SubSeq(ManySts, 1, n)>> }
ManyVerts == [i \in 1..Big |-> IF i % 4 = 2 THEN Sub("", M(i), "none", <<>>) ELSE ManyNids[i]]
(* one in the other, n deep, as a statement or as the end of an edge *)
RECURSIVE Deep(_, _)
Deep(n, how) == IF n = 0 THEN Sub("", M(1), "none", <<>>)
                ELSE LET d == Deep(n - 1, how) IN
                     Sub("", M(1 + (n % Big)), IF how = "vec" THEN "vec" ELSE "seq",
                         CASE how = "edge" -> <<Edge(<<d, ManyNids[n]>>, "none", <<>>)>> [] how = "last" -> <<Edge(<<ManyNids[n], d>>, "seq", <<ManyAs[n]>>)>>
                           [] how = "vec" -> <<One("stmt", d)>> [] OTHER -> <<d, Node("", M(n), <<>>, "none", <<>>)>>)
(* items of both forms, up to n *)
Items(pool, n) == { <<"none", <<>>>> }
                  \cup { <<"vec", Pick(pool, f)>> : f \in Seqs(1..Len(pool), 0, n) }
                  \cup { <<"seq", Pick(pool, f)>> : f \in Seqs(1..Len(pool), 1, n) }
Few == <<As[1], As[2]>>
Vec(items) == T("list", "", <<>>, <<>>, "vec", items)
AsVec(x) == IF x[1] = "none" THEN <<"none", <<>>>> ELSE <<"vec", [i \in 1..Len(x[2]) |-> One("stmt", x[2][i])]>>
(* a vec holds statements, the variadic form anything that becomes one *)
Body(x) == IF x[1] = "vec" THEN AsVec(x) ELSE x

RECURSIVE Size(_), Sizes(_, _), Sum(_, _)
Sum(b, i) == IF i > Len(b) THEN 0 ELSE (b[i] + 3 * Sum(b, i + 1)) % 1009
Sizes(ts, i) == IF i > Len(ts) THEN 0 ELSE (2 * i + 1) * Size(ts[i]) + Sizes(ts, i + 1)
Size(t) == (Len(t.pre) + (IF t.e = <<>> THEN 1 ELSE Sum(t.e[1].t, 1)) + 5 * Sizes(t.sub, 1) + 7 * Sizes(t.items, 1) + Len(t.form) + Len(t.m)) % 1009
Some(t) == /\ Cfg.every = 1 \/ Len(t.items) < 2 \/ (Size(t) + Cfg.seed) % Cfg.every = 0
           /\ term = t

Init ==
  /\ \/ Some(Id("", <<>>))
     \/ \E p \in Pre : \E i \in E : Some(Id(p, X(i)))
     \/ Some(Port(<<>>, <<>>))
     \/ \E d \in 1..Len(Cfg.dirs) : Some(Port(<<>>, D(d)))
     \/ \E d \in 1..Len(Cfg.dirs) : \E k \in 1..Len(Ids) : Some(Port(<<Ids[k]>>, D(d)))
     \/ \E k \in 1..Len(Ids) : Some(Port(<<Ids[k]>>, <<>>))
     \/ Some(Nid("", <<>>, <<>>))
     \/ \E p \in Pre : \E i \in E : \E q \in {<<>>} \cup { <<Ports[k]>> : k \in 1..Len(Ports) } : Some(Nid(p, X(i), q))
     \/ \E p \in Pre : \E q \in Pre : \E i \in E : \E k \in E : (i = 1 \/ k = 1 \/ i = k) /\ Some(Attr(p, X(i), q, X(k)))
     \/ Some(Attrs("", "none", <<>>))
     \/ \E ty \in {"graph", "node", "edge"} : \E x \in Items(As, Cfg.len) : x[1] # "none" /\ Some(Attrs(ty, x[1], x[2]))
     \/ \E ty \in {"graph", "Graph", "GRAPH", "gRaPh", "node", "Node", "NODE", "nOdE", "edge", "Edge", "EDGE", "eDgE"} :
          \E x \in Items(As, 2) : x[1] = "vec" /\ Some(T("attrsnew", ty, <<>>, <<>>, "vec", x[2]))
     \/ Some(Node("", <<>>, <<>>, "none", <<>>))
     \/ \E p \in Pre : \E i \in E : \E x \in Items(Few, IF i > 3 THEN 1 ELSE Cfg.len) :
          \/ Some(Node(p, X(i), <<>>, x[1], x[2]))
          \* there is no form with a port and without attributes
          \/ x[1] # "none" /\ \E k \in 1..Len(Ports) : Some(Node(p, X(i), <<Ports[k]>>, x[1], x[2]))
     \/ \E k \in 1..Len(Nids) : \E x \in Items(As, 2) : x[1] = "vec" /\ Some(T("nodenew", "", <<>>, <<Nids[k]>>, "vec", x[2]))
     \/ \E f \in Seqs(1..Len(Verts), 2, 3) \cup Seqs(1..2, 4, Cfg.chain) : \E x \in Items(Few, 2) : Some(Edge(Pick(Verts, f), x[1], x[2]))
     \/ Some(Sub("", <<>>, "none", <<>>))
     \/ \E p \in Pre : \E i \in {1, 2, Len(Cfg.exprs)} : \E x \in Items(St, IF i = 1 THEN Cfg.len ELSE 1) : Some(Sub(p, X(i), x[1], Body(x)[2]))
     \/ \E x \in Items(St, Cfg.len) : x[1] = "seq" /\ Some(Sub("", <<>>, "seq", x[2]))
     \/ \E p \in {"", "di", "strict", "strict di"} : \E i \in 1..Len(Ids) : \E x \in Items(St, IF i = 1 THEN Cfg.len ELSE 1) :
          Some(Graph(p, Ids[i], x[1], Body(x)[2]))
     \/ \E k \in 1..Len(St) : \E m \in {"stmt", "stmtfrom", "stmtinto"} : Some(One(m, St[k]))
     \/ \E k \in 1..Len(Hand) : \/ \E m \in {"stmt", "stmtfrom", "stmtinto"} : term = One(m, Hand[k])
                              \/ term = Hand[k]
                              \/ \E x \in {<<"seq", <<Hand[k]>>>>, <<"vec", <<One("stmt", Hand[k])>>>>} :
                                   term \in {Sub("", Lit(1), x[1], x[2]), Graph("di", Ids[2], x[1], x[2])}
     \/ \E k \in 1..Len(Verts) : \E m \in {"vertexfrom", "vertexinto"} : Some(One(m, Verts[k]))
     \/ \E s \in Single : \/ term \in { One(m, s) : m \in {"stmt", "stmtfrom", "stmtinto", "vertexfrom", "vertexinto"} }
                          \/ term \in { Edge(vs, "none", <<>>) : vs \in {<<s, Nids[1]>>, <<Nids[1], s>>, <<s, s>>, <<Nids[2], s, Nids[1]>>} }
                          \/ term \in { Sub("", <<>>, "seq", <<s>>), Sub("", Lit(1), "vec", <<One("stmt", s)>>), Graph("", Ids[1], "seq", <<s>>), Graph("di", Ids[2], "seq", <<s, s>>) }
     \/ \E k \in 1..Len(Cfg.texts) : term \in Spelled(Cfg.texts[k])
     \/ \E n \in 4..Big :
          \/ \E x \in FirstOf(n, ManyAs) : \/ \E ty \in {"graph", "node", "edge"} : term = Attrs(ty, x[1], x[2])
                                          \/ \E q \in {<<>>, <<Ports[2]>>} : term = Node("", M(n), q, x[1], x[2])
                                          \/ \E k \in {2, 3, 4} : term = Edge(SubSeq(ManyVerts, 1, k), x[1], x[2])
          \/ \E x \in {<<"none", <<>>>>} \cup FirstOf(1, ManyAs) \cup FirstOf(3, ManyAs) : term = Edge(SubSeq(ManyVerts, 1, n), x[1], x[2])
          \/ \E x \in FirstStmts(n) : \/ term = Sub("", M(n), x[1], x[2])
                                     \/ \E p \in {"", "di", "strict", "strict di"} : term = Graph(p, Ids[2], x[1], x[2])
          \/ \E how \in {"edge", "last", "vec", "seq"} : n < 8 /\ term = Deep(n, how)
  /\ done = FALSE

Write == /\ ~done /\ done' = TRUE /\ UNCHANGED term
         /\ CSVWrite("%1$s", <<ToJson([term |-> term, val |-> Value(term), ticks |-> Ticks(term)])>>, IOEnv.OUT)
Next == Write \/ (done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

(* ---- what the builders promise ---- *)
Order(x) == IF x.o \in {"attrs", "node", "edge"} THEN x.at ELSE IF x.o \in {"sub", "graph"} THEN x.body ELSE <<>>
(* all items, in order, nothing else *)
AllItems == LET v == Value(term) IN
  /\ Len(Order(v)) = Len(term.items) \/ term.m \in {"stmt", "stmtfrom", "stmtinto", "vertexfrom", "vertexinto"}
  /\ \A i \in 1..Len(term.items) : Order(v)[i] \in {Value(term.items[i]), StmtV(Value(term.items[i]))}
(* the list form and the variadic form agree *)
FormsAgree == term.form = "seq" =>
  Value(term) = Value([term EXCEPT !.form = "vec", !.items = IF term.m \in {"sub", "graph"} THEN AsVec(<<"vec", @>>)[2] ELSE @])
=============================================================================
