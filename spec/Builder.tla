------------------------------- MODULE Builder ------------------------------
(* What the builders make: the macros, constructors, conversions and add     *)
(* functions as functions from terms to elements.                            *)
(*                                                                           *)
(* A term is one use of a builder:                                           *)
(*   m      which builder                                                    *)
(*   pre    kind prefix of the id ("", "esc", "html"), or another word       *)
(*   e      the id argument, a sequence of at most one expression            *)
(*   sub    the other arguments, in order (port, vertices, ids)              *)
(*   form   how the items are given: "none", "vec", "seq"                    *)
(*   items  the items                                                        *)
(* An expression is [how, t]: how it is written, and the text it has.        *)
(* Elements are records tagged by o; what may be missing is a sequence of at *)
(* most one.                                                                 *)
EXTENDS Integers, Sequences

T(m, pre, e, sub, form, items) == [m |-> m, pre |-> pre, e |-> e, sub |-> sub, form |-> form, items |-> items]

(* ---- elements ---- *)
IdV(k, t) == [o |-> "id", k |-> k, t |-> t]
AnonId == IdV("a", <<>>)
MakeId(pre, e) == CASE e = <<>>      -> AnonId
                    [] pre = "esc"   -> IdV("q", <<34>> \o e[1].t \o <<34>>)
                    [] pre = "html"  -> IdV("h", e[1].t)
                    [] OTHER         -> IdV("p", e[1].t)
PortV(id, dir) == [o |-> "port", id |-> id, dir |-> dir]
NidV(id, port) == [o |-> "nid", id |-> id, port |-> port]
AttrV(k, v) == [o |-> "attr", key |-> k, val |-> v]
AttrsV(ty, at) == [o |-> "attrs", ty |-> ty, at |-> at]
NodeV(nid, at) == [o |-> "node", nid |-> nid, at |-> at]
EdgeV(vs, at) == [o |-> "edge", pair |-> Len(vs) = 2, vs |-> vs, at |-> at]
SubV(id, body) == [o |-> "sub", id |-> id, body |-> body]
GraphV(di, strict, id, body) == [o |-> "graph", di |-> di, strict |-> strict, id |-> id, body |-> body]
StmtV(v) == IF v.o = "stmt" THEN v ELSE [o |-> "stmt", v |-> v]
VertexV(v) == IF v.o = "vertex" THEN v ELSE [o |-> "vertex", v |-> v]

(* ---- builders ---- *)
RECURSIVE Value(_), Values(_)
Values(ts) == [i \in 1..Len(ts) |-> Value(ts[i])]
Stmts(ts) == [i \in 1..Len(ts) |-> StmtV(Value(ts[i]))]
Vertices(ts) == [i \in 1..Len(ts) |-> VertexV(Value(ts[i]))]
Lower(ty) == CASE ty \in {"graph", "Graph", "GRAPH", "gRaPh"} -> "graph"
               [] ty \in {"node", "Node", "NODE", "nOdE"} -> "node"
               [] ty \in {"edge", "Edge", "EDGE", "eDgE"} -> "edge"
Value(t) ==
  CASE t.m = "id"     -> MakeId(t.pre, t.e)
    \* the text of a port's compass point is its e
    [] t.m = "port"   -> PortV(Values(t.sub), IF t.e = <<>> THEN <<>> ELSE <<t.e[1].t>>)
    [] t.m = "nid"    -> NidV(MakeId(t.pre, t.e), Values(t.sub))
    [] t.m = "attr"   -> AttrV(MakeId(t.pre, t.e), MakeId(t.sub[1].pre, t.sub[1].e))
    [] t.m = "attrs"  -> AttrsV(IF t.pre = "" THEN "graph" ELSE t.pre, Values(t.items))
    [] t.m = "node"   -> NodeV(NidV(MakeId(t.pre, t.e), Values(t.sub)), Values(t.items))
    [] t.m = "edge"   -> EdgeV(Vertices(t.sub), Values(t.items))
    \* an edge written as the structure it is, whatever the number of its vertices
    [] t.m = "chain"  -> [EdgeV(Vertices(t.sub), Values(t.items)) EXCEPT !.pair = FALSE]
    [] t.m = "sub"    -> SubV(MakeId(t.pre, t.e), Stmts(t.items))
    [] t.m = "graph"  -> GraphV(t.pre \in {"di", "strict di"}, t.pre \in {"strict", "strict di"}, Value(t.sub[1]), Stmts(t.items))
    \* stmt!, Stmt::from, into
    [] t.m \in {"stmt", "stmtfrom", "stmtinto"} -> StmtV(Value(t.sub[1]))
    [] t.m \in {"vertexfrom", "vertexinto"}     -> VertexV(Value(t.sub[1]))
    [] t.m = "attrsnew" -> AttrsV(Lower(t.pre), Values(t.items))
    [] t.m = "nodenew"  -> NodeV(Value(t.sub[1]), Values(t.items))

(* every argument is evaluated once *)
RECURSIVE Ticks(_), TicksOf(_, _)
TicksOf(ts, i) == IF i > Len(ts) THEN 0 ELSE Ticks(ts[i]) + TicksOf(ts, i + 1)
Ticks(t) == (IF t.e # <<>> /\ t.e[1].how = "tick" THEN 1 ELSE 0) + TicksOf(t.sub, 1) + TicksOf(t.items, 1)

(* add functions *)
AddStmt(x, s) == [x EXCEPT !.body = Append(@, StmtV(s))]
=============================================================================
