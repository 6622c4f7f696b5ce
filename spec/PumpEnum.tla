------------------------------- MODULE PumpEnum ------------------------------
(* Documents of any length: x y..y z for every y out of some pieces. If the  *)
(* reader is in the same state before two copies of y in a row (but for the  *)
(* number of vertices of the edge at hand and the text of the token at hand, *)
(* which may grow), then so it is before any later copy, and what the text   *)
(* with more copies denotes is known: each further copy adds the same events *)
(* once more. Every such loop is written out, and for comparison the events  *)
(* of some texts with more copies.                                           *)
EXTENDS Integers, Sequences, Json, IOUtils, CSV, TLC

Cfgs == JsonDeserialize(IOEnv.CFG)   \* seq of [xs, zs, pieces, max]
B == 3                               \* copies before the loop
Copies == {B + 2, B + 5}
Self(s) == s

VARIABLES src, pos, lx, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf, out
VARIABLES hist, pick,   \* pick: [c, x, z, f, n]: context, y as a sequence of pieces, copies
          m1, m2,       \* the reader before the two copies, <<>> until it gets there
          last          \* where in the events the edge at hand came to its end, what the token at hand became
R == INSTANCE DotReader WITH Text <- Self
rv == <<src, pos, lx, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf, out>>
vars == <<src, pos, lx, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf, out, hist, pick, m1, m2, last>>

RECURSIVE Cat(_, _, _), Times(_, _)
Cat(ps, f, i) == IF i > Len(f) THEN <<>> ELSE ps[f[i]] \o Cat(ps, f, i + 1)
Times(y, n) == IF n = 0 THEN <<>> ELSE y \o Times(y, n - 1)

X(p) == Cfgs[p.c].xs[p.x]
Y(p) == Cat(Cfgs[p.c].pieces, p.f, 1)
Z(p) == Cfgs[p.c].zs[p.z]
Q1 == Len(X(pick)) + B * Len(Y(pick)) + 1
Q2 == Q1 + Len(Y(pick))

Init == /\ \E c \in 1..Len(Cfgs) : \E x \in 1..Len(Cfgs[c].xs), z \in 1..Len(Cfgs[c].zs) :
             \E n \in 1..Cfgs[c].max : \E f \in [1..n -> 1..Len(Cfgs[c].pieces)] : \E k \in Copies :
               LET p == [c |-> c, x |-> x, z |-> z, f |-> f, n |-> k] IN
               /\ pick = p
               /\ R!ReaderInit(X(p) \o Times(Y(p), k) \o Z(p))
        /\ hist = <<>> /\ m1 = <<>> /\ m2 = <<>> /\ last = [edge |-> 0, id |-> <<>>]

(* what decides the future of the reader, but for the growing parts *)
InToken == lx \in {"word", "int", "frac", "dot", "minus", "str", "esc", "html"}
Here == [lx |-> lx, dep |-> dep, tok |-> tok, lastk |-> lastk, ctl |-> ctl, fr |-> fr, own |-> own, pid |-> pid, prt |-> prt,
         gf |-> gf, nv |-> nv, beg |-> IF InToken THEN beg ELSE 0, ev |-> Len(hist), pos |-> pos]
Fixed(m) == [m EXCEPT !.nv = 0, !.beg = 0, !.ev = 0, !.pos = 0]
Growing == m1 # <<>> /\ m1[1].beg > 0 /\ m2 # <<>> /\ m2[1].beg = m1[1].beg
Loop == /\ m1 # <<>> /\ m2 # <<>>
        /\ Fixed(m1[1]) = Fixed(m2[1])
        /\ \/ m2[1].nv = m1[1].nv
           \/ m2[1].nv > m1[1].nv /\ m1[1].nv >= 3
        /\ \/ m1[1].beg = m2[1].beg
           \/ /\ m2[1].beg = m1[1].beg + (Q2 - Q1)
              /\ m1[1].beg > Len(X(pick))

Mark == /\ m1' = IF m1 = <<>> /\ pos = Q1 THEN <<Here>> ELSE m1
        /\ m2' = IF m2 = <<>> /\ pos = Q2 THEN <<Here>> ELSE m2

Edge(o) == o # <<>> /\ o[1].o = "edge"
Ended == [edge |-> IF last.edge = 0 /\ m2 # <<>> /\ Edge(out') /\ Len(fr) = Len(m2[1].fr) THEN Len(hist) + 1 ELSE last.edge,
          id |-> IF last.id = <<>> /\ Growing /\ tok.t = "none" /\ tok'.t = "id" THEN tok'.x ELSE last.id]

(* an event in short *)
Short(e) == <<e.o, e.a.k, e.a.t, e.b.k, e.b.t, e.c, e.n, e.f>>
Vector == [c |-> pick.c, x |-> X(pick), y |-> Y(pick), z |-> Z(pick), k |-> Len(pick.f), n |-> pick.n, v |-> ctl',
           h1 |-> IF Loop THEN m1[1].ev ELSE 0, h2 |-> IF Loop THEN m2[1].ev ELSE 0,
           dn |-> IF Loop THEN m2[1].nv - m1[1].nv ELSE 0, edge |-> last'.edge,
           \* where the loop is: loops of the same context at the same place can follow each other in any order
           at |-> IF Loop /\ m1[1].beg = 0 /\ m1[1].nv = m2[1].nv THEN ToString(Fixed(m1[1])) ELSE "",
           grow |-> IF Growing THEN Q1 - m1[1].beg ELSE 0, id |-> last'.id,
           ev |-> IF ctl' = "acc" THEN [i \in 1..Len(hist') |-> Short(hist'[i])] ELSE <<>>]

Step == /\ R!ReaderNext
        /\ hist' = hist \o out'
        /\ Mark /\ last' = Ended /\ UNCHANGED pick
        /\ (ctl' \in {"acc", "rej"} /\ Loop) => CSVWrite("%1$s", <<ToJson(Vector)>>, IOEnv.OUT)
Done == R!Final /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

(* a word that grows is not a keyword nor a compass point any more, whatever it began like *)
NoKeyword == (Loop /\ Growing /\ last.id # <<>>) => R!KeywordOf(last.id) = "" /\ ~R!IsCompass(last.id)
Forward == [][pos' >= pos]_vars
=============================================================================
