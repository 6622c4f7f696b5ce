------------------------------ MODULE PrintEnum -----------------------------
(* Save and load on a bounded universe: every graph built from a pool of     *)
(* statements, under every listed settings, is printed by Layout and the     *)
(* text is read by the DotReader. The reader has to accept it as exactly the *)
(* graph that was printed. Every pair is written out for the real printer    *)
(* and the real parser.                                                      *)
EXTENDS Integers, Sequences, Json, IOUtils, CSV, Layout

Cfg == JsonDeserialize(IOEnv.CFG)
\* [leaf: statements without subgraphs, verts: node ids, ids, ats: attribute lists,
\*  settings, full: pairs of settings and graph kinds, len: longest body]
Self(s) == s

VARIABLES src, pos, lx, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf, out
VARIABLES key,    \* which graph under which settings
          hist    \* events read so far
R == INSTANCE DotReader WITH Text <- Self
vars == <<src, pos, lx, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf, out, key, hist>>

Bodies(n) == UNION { [1..k -> 1..Len(Cfg.leaf)] : k \in 0..n }
LeafBody(b) == [i \in 1..Len(b) |-> Cfg.leaf[b[i]]]
Sub(i, body) == [o |-> "sub", id |-> Cfg.ids[i], body |-> body]
Edge(vs, a) == [o |-> "edge", pair |-> Len(vs) = 2, vs |-> vs, at |-> Cfg.ats[a]]
NidV(i) == Cfg.verts[i]

(* shapes: flat, a subgraph, a subgraph in a subgraph, subgraphs at each end of an edge *)
BodyOf(x) ==
  CASE x.shape = "flat"  -> LeafBody(x.b)
    [] x.shape = "sub"   -> <<Sub(x.i, LeafBody(x.b))>> \o LeafBody(x.c)
    [] x.shape = "after" -> LeafBody(x.c) \o <<Sub(x.i, LeafBody(x.b))>>
    [] x.shape = "nest"  -> <<Sub(x.i, LeafBody(x.c) \o <<Sub(1, LeafBody(x.b))>>)>> \o LeafBody(x.c)
    [] x.shape = "left"  -> <<Edge(<<Sub(x.i, LeafBody(x.b)), NidV(1)>>, x.a)>> \o LeafBody(x.c)
    [] x.shape = "right" -> <<Edge(<<NidV(2), Sub(x.i, LeafBody(x.b))>>, x.a)>> \o LeafBody(x.c)
    [] x.shape = "mid"   -> <<Edge(<<NidV(1), Sub(x.i, LeafBody(x.b)), NidV(2)>>, x.a)>> \o LeafBody(x.c)
    [] x.shape = "both"  -> <<Edge(<<Sub(x.i, LeafBody(x.b)), Sub(1, LeafBody(x.c))>>, x.a)>>
    [] x.shape = "deep"  -> <<Edge(<<NidV(1), Sub(x.i, <<Edge(<<Sub(1, LeafBody(x.b)), NidV(2)>>, x.a)>> \o LeafBody(x.c))>>, x.a)>>

GraphOf(x) == [o |-> "graph", di |-> Cfg.kinds[x.g].di, strict |-> Cfg.kinds[x.g].strict,
               id |-> Cfg.ids[Cfg.kinds[x.g].id], body |-> BodyOf(x)]

(* one in Cfg.every keys, spread by a hash of the key, unless everything is asked for *)
RECURSIVE Sum(_, _)
Sum(b, i) == IF i > Len(b) THEN 0 ELSE b[i] * (7 * i + 3) + Sum(b, i + 1)
Shapes == <<"flat", "sub", "after", "nest", "left", "right", "mid", "both", "deep">>
Hash(x) == Sum(x.b, 1) * 5 + Sum(x.c, 1) * 11 + x.i * 13 + x.a * 17 + x.g * 19 + x.s * 23
           + 29 * (CHOOSE n \in 1..9 : Shapes[n] = x.shape) + Cfg.seed
Chosen(x) == Cfg.every = 1 \/ Hash(x) % Cfg.every = 0

G == 1..Len(Cfg.kinds)
I == 1..Len(Cfg.ids)
A == 1..Len(Cfg.ats)
Key(shape, b, c, i, a, g, s) == [shape |-> shape, b |-> b, c |-> c, i |-> i, a |-> a, g |-> g, s |-> s]
Pick(x) == Chosen(x) /\ key = x

Init == /\ \E s \in 1..Len(Cfg.settings) :
             \/ \E b \in Bodies(Cfg.len), g \in G : Pick(Key("flat", b, <<>>, 1, 1, g, s))
             \/ \E b \in Bodies(Cfg.inner), c \in Bodies(1), g \in {1, 2} :
                  \/ \E i \in I, sh \in {"sub", "after", "nest"} : Pick(Key(sh, b, c, i, 1, g, s))
                  \/ \E a \in A, sh \in {"left", "right", "mid", "both", "deep"} : Pick(Key(sh, b, c, 1, a, g, s))
        /\ R!ReaderInit(<<>>) /\ hist = <<>>

DoPrint == /\ src = <<>>
           /\ src' = GraphText(GraphOf(key), Cfg.settings[key.s])
           /\ UNCHANGED <<pos, lx, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf, out, key, hist>>

DoRead == /\ src # <<>> /\ R!ReaderNext
          /\ hist' = hist \o out'
          /\ UNCHANGED key
          /\ ctl' = "acc" =>
             CSVWrite("%1$s", <<ToJson([g |-> GraphOf(key), set |-> Cfg.settings[key.s], text |-> src])>>, IOEnv.OUT)
Done == R!Final /\ UNCHANGED vars
Next == DoPrint \/ DoRead \/ Done
Spec == Init /\ [][Next]_vars

(* the printed text denotes the printed graph *)
Denotes == /\ ctl # "rej" /\ ctl # "uns"
           /\ ctl = "acc" => hist = GraphEv(GraphOf(key))
=============================================================================
