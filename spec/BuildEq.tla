------------------------------- MODULE BuildEq ------------------------------
(* Equality: every two elements of a pool that has, for every element, one   *)
(* that differs in just one part. Equal exactly when all parts are.          *)
EXTENDS Builder, Json, IOUtils, CSV

Mod(x, y) == x - y * (x \div y)
VARIABLES p, done
vars == <<p, done>>

a == <<97>>  b == <<98>>
LongT(c) == [i \in 1..300 |-> IF i = 299 THEN c ELSE 120]   \* differ in the last but one
Ids == <<IdV("p", a), IdV("p", b), IdV("q", a), IdV("h", a), IdV("a", a), IdV("a", b), IdV("p", <<>>), IdV("p", <<97, 98>>), IdV("p", <<65>>),
         IdV("q", <<>>), IdV("h", <<>>), IdV("a", <<>>), IdV("q", b), IdV("h", b), IdV("p", LongT(97)), IdV("p", LongT(98)), IdV("a", LongT(97)), IdV("a", LongT(98))>>
P == IdV("p", a)  Q == IdV("q", a)  O == IdV("p", b)
Ports == <<PortV(<<>>, <<>>), PortV(<<P>>, <<>>), PortV(<<Q>>, <<>>), PortV(<<>>, <<a>>), PortV(<<>>, <<b>>), PortV(<<>>, << <<>> >>), PortV(<<P>>, <<a>>), PortV(<<P>>, <<b>>), PortV(<<O>>, <<a>>)>>
Nids == <<NidV(P, <<>>), NidV(Q, <<>>), NidV(O, <<>>), NidV(P, <<Ports[1]>>), NidV(P, <<Ports[2]>>), NidV(P, <<Ports[4]>>), NidV(P, <<Ports[7]>>), NidV(O, <<Ports[7]>>)>>
As == <<AttrV(P, O), AttrV(O, P), AttrV(P, P), AttrV(Q, O), AttrV(P, IdV("q", b))>>
(* long ones: k is the place where one differs, 0 if none *)
Long(x, y, k) == [i \in 1..9 |-> IF i = k THEN y ELSE x]
Lists == << <<>>, <<As[1]>>, <<As[2]>>, <<As[1], As[2]>>, <<As[2], As[1]>>, <<As[1], As[1]>>, Long(As[1], As[4], 0), Long(As[1], As[4], 1), Long(As[1], As[4], 5),
            Long(As[1], As[4], 8), Long(As[1], As[4], 9) >>
NL == Len(Lists)
Attrss == [i \in 1..3 * NL |-> AttrsV(<<"graph", "node", "edge">>[(i - 1) \div NL + 1], Lists[Mod(i - 1, NL) + 1])]
Nodes == [i \in 1..3 * NL |-> NodeV(Nids[<<1, 3, 7>>[(i - 1) \div NL + 1]], Lists[Mod(i - 1, NL) + 1])]
Sub0 == SubV(P, <<>>)  Sub1 == SubV(O, <<>>)  Sub2 == SubV(P, <<StmtV(Nodes[1])>>)
Vs == <<VertexV(Nids[1]), VertexV(Nids[3]), VertexV(Sub0), VertexV(Sub2), VertexV(Nids[7])>>
EdgeC(vs, at) == [EdgeV(vs, at) EXCEPT !.pair = FALSE]
Edges == <<EdgeV(<<Vs[1], Vs[2]>>, <<>>), EdgeV(<<Vs[2], Vs[1]>>, <<>>), EdgeV(<<Vs[1], Vs[1]>>, <<>>), EdgeC(<<Vs[1], Vs[2]>>, <<>>),
           EdgeC(<<Vs[1], Vs[2], Vs[1]>>, <<>>), EdgeC(<<Vs[1], Vs[1], Vs[2]>>, <<>>), EdgeV(<<Vs[1], Vs[3]>>, <<>>), EdgeV(<<Vs[1], Vs[4]>>, <<>>),
           EdgeV(<<Vs[1], Vs[2]>>, Lists[2]), EdgeV(<<Vs[1], Vs[2]>>, Lists[4]), EdgeV(<<Vs[1], Vs[2]>>, Lists[5]), EdgeC(<<Vs[1], Vs[2], Vs[3]>>, Lists[2]),
           EdgeC(<<Vs[1], Vs[2], Vs[4]>>, Lists[2]), EdgeV(<<Vs[5], Vs[2]>>, <<>>)>>
         \o [k \in 1..10 |-> EdgeC(Long(Vs[1], Vs[2], k - 1), <<>>)] \o [k \in 1..10 |-> EdgeC(Long(Vs[4], Vs[3], k - 1), Lists[2])]
         \o [k \in 1..4 |-> EdgeV(<<Vs[1], Vs[2]>>, Lists[7 + k])]
Sts == <<StmtV(Nodes[1]), StmtV(Nodes[2]), StmtV(Edges[1]), StmtV(Edges[2]), StmtV(As[1]), StmtV(As[2]), StmtV(Attrss[2]), StmtV(Attrss[NL + 2]), StmtV(Sub0), StmtV(Sub1), StmtV(Sub2)>>
Bodies == << <<>>, <<Sts[1]>>, <<Sts[2]>>, <<Sts[1], Sts[2]>>, <<Sts[2], Sts[1]>>, <<Sts[1], Sts[1]>>, <<Sts[9]>>, <<Sts[10]>>, <<Sts[11]>>, Long(Sts[1], Sts[2], 0), Long(Sts[1], Sts[2], 4),
             Long(Sts[9], Sts[11], 0), Long(Sts[9], Sts[11], 9), <<StmtV(SubV(IdV("a", a), <<>>))>>, <<StmtV(SubV(IdV("a", b), <<>>))>>,
             <<StmtV(SubV(P, <<StmtV(SubV(P, <<Sts[1]>>))>>))>>, <<StmtV(SubV(P, <<StmtV(SubV(P, <<Sts[2]>>))>>))>> >>
NB == Len(Bodies)
Subs == [i \in 1..6 * NB |-> SubV(<<P, O, IdV("a", a), IdV("a", b), Q, IdV("h", a)>>[(i - 1) \div NB + 1], Bodies[Mod(i - 1, NB) + 1])]
Graphs == [i \in 1..16 * NB |-> GraphV((i - 1) \div (8 * NB) = 1, Mod((i - 1) \div (4 * NB), 2) = 1, <<P, Q, IdV("a", a), IdV("a", b)>>[Mod((i - 1) \div NB, 4) + 1],
                                      Bodies[Mod(i - 1, NB) + 1])]
Pools == <<Ids, Ports, Nids, As, Attrss, Nodes, Vs, Edges, Sts, Subs, Graphs>>

Init == /\ \E t \in 1..Len(Pools) : \E i \in 1..Len(Pools[t]) : \E k \in 1..Len(Pools[t]) : p = <<t, i, k>>
        /\ done = FALSE
L == Pools[p[1]][p[2]]
R == Pools[p[1]][p[3]]
Write == /\ ~done /\ done' = TRUE /\ UNCHANGED p
         /\ CSVWrite("%1$s", <<ToJson([l |-> L, r |-> R, same |-> L = R])>>, IOEnv.OUT)
Next == Write \/ (done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
(* no element is twice in its pool *)
Distinct == (L = R) <=> p[2] = p[3]
=============================================================================
