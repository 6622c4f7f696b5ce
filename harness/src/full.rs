//! Elements <-> JSON with all their parts, the names of anonymous ids included.
use crate::json::*;
use dot_structures::*;

/// A builder's argument that notices being evaluated.
pub fn tick<T>(v: T) -> T {
    TICKS.with(|t| t.set(t.get() + 1));
    v
}
thread_local! {
    static TICKS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// What a use of a builder made, and how many of its noticing arguments were evaluated.
pub fn made<T: Full>(n: usize, f: impl FnOnce() -> T) {
    TICKS.with(|t| t.set(0));
    let v = crate::quiet(f);
    let t = TICKS.with(|t| t.get());
    let v = v.map(|v| v.full()).unwrap_or(J::Null);
    println!("{}", o(vec![("n", J::N(n as i64)), ("val", v), ("ticks", J::N(t as i64))]).dump());
}

pub trait Full {
    fn full(&self) -> J;
}
fn list<T: Full>(v: &[T]) -> J {
    J::A(v.iter().map(|x| x.full()).collect())
}
fn opt<T: Full>(v: &Option<T>) -> J {
    J::A(v.iter().map(|x| x.full()).collect())
}
fn tag(name: &str, mut fields: Vec<(&str, J)>) -> J {
    fields.push(("o", s(name)));
    o(fields)
}
impl Full for Id {
    fn full(&self) -> J {
        let (k, t) = match self {
            Id::Plain(v) => ("p", v),
            Id::Escaped(v) => ("q", v),
            Id::Html(v) => ("h", v),
            Id::Anonymous(v) => ("a", v),
        };
        tag("id", vec![("k", s(k)), ("t", codes(t))])
    }
}
impl Full for Port {
    fn full(&self) -> J {
        let Port(id, dir) = self;
        tag("port", vec![("id", opt(id)), ("dir", J::A(dir.iter().map(|d| codes(d)).collect()))])
    }
}
impl Full for NodeId {
    fn full(&self) -> J {
        tag("nid", vec![("id", self.0.full()), ("port", opt(&self.1))])
    }
}
impl Full for Attribute {
    fn full(&self) -> J {
        tag("attr", vec![("key", self.0.full()), ("val", self.1.full())])
    }
}
impl Full for GraphAttributes {
    fn full(&self) -> J {
        let (ty, at) = match self {
            GraphAttributes::Graph(a) => ("graph", a),
            GraphAttributes::Node(a) => ("node", a),
            GraphAttributes::Edge(a) => ("edge", a),
        };
        tag("attrs", vec![("ty", s(ty)), ("at", list(at))])
    }
}
impl Full for Node {
    fn full(&self) -> J {
        tag("node", vec![("nid", self.id.full()), ("at", list(&self.attributes))])
    }
}
impl Full for Vertex {
    fn full(&self) -> J {
        tag("vertex", vec![("v", match self {
            Vertex::N(x) => x.full(),
            Vertex::S(x) => x.full(),
        })])
    }
}
impl Full for Edge {
    fn full(&self) -> J {
        let (pair, vs) = match &self.ty {
            EdgeTy::Pair(l, r) => (true, J::A(vec![l.full(), r.full()])),
            EdgeTy::Chain(vs) => (false, list(vs)),
        };
        tag("edge", vec![("pair", J::B(pair)), ("vs", vs), ("at", list(&self.attributes))])
    }
}
impl Full for Subgraph {
    fn full(&self) -> J {
        tag("sub", vec![("id", self.id.full()), ("body", list(&self.stmts))])
    }
}
impl Full for Stmt {
    fn full(&self) -> J {
        tag("stmt", vec![("v", match self {
            Stmt::Node(x) => x.full(),
            Stmt::Subgraph(x) => x.full(),
            Stmt::Attribute(x) => x.full(),
            Stmt::GAttribute(x) => x.full(),
            Stmt::Edge(x) => x.full(),
        })])
    }
}
impl Full for Graph {
    fn full(&self) -> J {
        let (di, id, strict, stmts) = match self {
            Graph::Graph { id, strict, stmts } => (false, id, strict, stmts),
            Graph::DiGraph { id, strict, stmts } => (true, id, strict, stmts),
        };
        tag("graph", vec![("di", J::B(di)), ("strict", J::B(*strict)), ("id", id.full()), ("body", list(stmts))])
    }
}

// ---- the other way, without the builders ----
pub fn id(j: &J) -> Id {
    let t = j.get("t").text();
    match j.get("k").str() {
        "p" => Id::Plain(t),
        "q" => Id::Escaped(t),
        "h" => Id::Html(t),
        _ => Id::Anonymous(t),
    }
}
pub fn port(j: &J) -> Port {
    Port(j.get("id").arr().first().map(id), j.get("dir").arr().first().map(|d| d.text()))
}
pub fn nid(j: &J) -> NodeId {
    NodeId(id(j.get("id")), j.get("port").arr().first().map(port))
}
pub fn attr(j: &J) -> Attribute {
    Attribute(id(j.get("key")), id(j.get("val")))
}
fn at(j: &J) -> Vec<Attribute> {
    j.get("at").arr().iter().map(attr).collect()
}
pub fn attrs(j: &J) -> GraphAttributes {
    match j.get("ty").str() {
        "graph" => GraphAttributes::Graph(at(j)),
        "node" => GraphAttributes::Node(at(j)),
        _ => GraphAttributes::Edge(at(j)),
    }
}
pub fn node(j: &J) -> Node {
    Node { id: nid(j.get("nid")), attributes: at(j) }
}
pub fn vertex(j: &J) -> Vertex {
    let v = j.get("v");
    if v.get("o").str() == "nid" {
        Vertex::N(nid(v))
    } else {
        Vertex::S(sub(v))
    }
}
pub fn edge(j: &J) -> Edge {
    let mut vs: Vec<Vertex> = j.get("vs").arr().iter().map(vertex).collect();
    let ty = if j.get("pair").bool() {
        let r = vs.pop().unwrap();
        EdgeTy::Pair(vs.pop().unwrap(), r)
    } else {
        EdgeTy::Chain(vs)
    };
    Edge { ty, attributes: at(j) }
}
fn body(j: &J) -> Vec<Stmt> {
    j.get("body").arr().iter().map(stmt).collect()
}
pub fn sub(j: &J) -> Subgraph {
    Subgraph { id: id(j.get("id")), stmts: body(j) }
}
pub fn stmt(j: &J) -> Stmt {
    let v = j.get("v");
    match v.get("o").str() {
        "node" => Stmt::Node(node(v)),
        "sub" => Stmt::Subgraph(sub(v)),
        "attr" => Stmt::Attribute(attr(v)),
        "attrs" => Stmt::GAttribute(attrs(v)),
        _ => Stmt::Edge(edge(v)),
    }
}
pub fn graph(j: &J) -> Graph {
    let (id, strict, stmts) = (id(j.get("id")), j.get("strict").bool(), body(j));
    if j.get("di").bool() {
        Graph::DiGraph { id, strict, stmts }
    } else {
        Graph::Graph { id, strict, stmts }
    }
}

fn hash<T: std::hash::Hash>(v: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// What is wrong about the equality of two elements, if anything.
pub fn compare(l: &J, r: &J, same: bool) -> Option<String> {
    macro_rules! eq {
        ($f:ident) => {{
            let (a, b) = ($f(l), $f(r));
            let c = a.clone();
            if (a == b) != same || (b == a) != same || (a != b) == same {
                Some(format!("{:?} == {:?} is {}", a, b, a == b))
            } else if a != c || c.full() != *l || b.full() != *r {
                Some(format!("{:?} and its copy {:?} differ", a, c))
            } else {
                None
            }
        }};
    }
    macro_rules! hashed {
        ($f:ident) => {{
            let (a, b) = ($f(l), $f(r));
            if a == b && hash(&a) != hash(&b) {
                Some(format!("{:?} and {:?} are equal and have different hashes", a, b))
            } else {
                None
            }
        }};
    }
    match l.get("o").str() {
        "id" => eq!(id).or_else(|| hashed!(id)),
        "port" => eq!(port).or_else(|| hashed!(port)),
        "nid" => eq!(nid).or_else(|| hashed!(nid)),
        "attr" => eq!(attr),
        "attrs" => eq!(attrs),
        "node" => eq!(node),
        "vertex" => eq!(vertex),
        "edge" => eq!(edge),
        "stmt" => eq!(stmt),
        "sub" => eq!(sub),
        "graph" => eq!(graph),
        x => panic!("{}", x),
    }
}

/// One history of building by hand.
pub fn history(h: &J, pool: &[J]) -> Option<String> {
    let (mut g, mut sb, mut kept) = (graph(h.get("start")), sub(h.get("sub0")), Vec::new());
    for op in h.get("ops").arr() {
        let k = op.arr()[1].int() as usize;
        match op.arr()[0].str() {
            "g" => g.add_stmt(loose(&pool[k - 1])),
            "s" => sb.add_stmt(loose(&pool[k - 1])),
            "put" => g.add_stmt(sb.clone().into()),
            _ => kept.push(g.clone()),
        }
    }
    let bad = |what: &str, want: &J, got: J| Some(format!("{}: expected {}, got {}", what, want.dump(), got.dump()));
    if g.full() != *h.get("g") {
        return bad("the graph", h.get("g"), g.full());
    }
    if sb.full() != *h.get("sub") {
        return bad("the subgraph", h.get("sub"), sb.full());
    }
    if list(&kept) != *h.get("kept") {
        return bad("the copies", h.get("kept"), list(&kept));
    }
    for (k, same) in kept.iter().zip(h.get("same").arr()) {
        if (*k == g) != same.bool() || (g == *k) != same.bool() {
            return Some(format!("{:?} == {:?} is {}", k, g, *k == g));
        }
    }
    None
}
/// a statement made of an element by the conversion
fn loose(j: &J) -> Stmt {
    match j.get("o").str() {
        "node" => node(j).into(),
        "sub" => sub(j).into(),
        "attr" => attr(j).into(),
        "attrs" => attrs(j).into(),
        "edge" => edge(j).into(),
        _ => stmt(j),
    }
}
