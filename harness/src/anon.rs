//! Names of anonymous parts of real graphs.
use dot_structures::*;
use graphviz_rust::printer::{DotPrinter, PrinterContext};

/// All names of anonymous ids in order, and the graph without them.
pub fn strip(g: &Graph) -> (Vec<String>, Graph) {
    let mut names = vec![];
    let h = match g {
        Graph::Graph { id, strict, stmts } => Graph::Graph { id: id_(id, &mut names), strict: *strict, stmts: stmts_(stmts, &mut names) },
        Graph::DiGraph { id, strict, stmts } => Graph::DiGraph { id: id_(id, &mut names), strict: *strict, stmts: stmts_(stmts, &mut names) },
    };
    (names, h)
}
fn id_(i: &Id, names: &mut Vec<String>) -> Id {
    match i {
        Id::Anonymous(v) => {
            names.push(v.clone());
            Id::Anonymous(String::new())
        }
        x => x.clone(),
    }
}
fn nid(x: &NodeId, names: &mut Vec<String>) -> NodeId {
    let i = id_(&x.0, names);
    NodeId(i, x.1.as_ref().map(|Port(p, c)| Port(p.as_ref().map(|p| id_(p, names)), c.clone())))
}
fn attr(Attribute(k, v): &Attribute, names: &mut Vec<String>) -> Attribute {
    let k = id_(k, names);
    Attribute(k, id_(v, names))
}
fn attrs(a: &[Attribute], names: &mut Vec<String>) -> Vec<Attribute> {
    a.iter().map(|a| attr(a, names)).collect()
}
fn sub(x: &Subgraph, names: &mut Vec<String>) -> Subgraph {
    let id = id_(&x.id, names);
    Subgraph { id, stmts: stmts_(&x.stmts, names) }
}
fn vertex(v: &Vertex, names: &mut Vec<String>) -> Vertex {
    match v {
        Vertex::N(x) => Vertex::N(nid(x, names)),
        Vertex::S(x) => Vertex::S(sub(x, names)),
    }
}
fn stmts_(stmts: &[Stmt], names: &mut Vec<String>) -> Vec<Stmt> {
    stmts
        .iter()
        .map(|st| match st {
            Stmt::Node(x) => {
                let id = nid(&x.id, names);
                Stmt::Node(Node { id, attributes: attrs(&x.attributes, names) })
            }
            Stmt::Subgraph(x) => Stmt::Subgraph(sub(x, names)),
            Stmt::Attribute(a) => Stmt::Attribute(attr(a, names)),
            Stmt::GAttribute(x) => Stmt::GAttribute(match x {
                GraphAttributes::Graph(a) => GraphAttributes::Graph(attrs(a, names)),
                GraphAttributes::Node(a) => GraphAttributes::Node(attrs(a, names)),
                GraphAttributes::Edge(a) => GraphAttributes::Edge(attrs(a, names)),
            }),
            Stmt::Edge(e) => {
                let ty = match &e.ty {
                    EdgeTy::Pair(l, r) => {
                        let l = vertex(l, names);
                        EdgeTy::Pair(l, vertex(r, names))
                    }
                    EdgeTy::Chain(vs) => EdgeTy::Chain(vs.iter().map(|v| vertex(v, names)).collect()),
                };
                Stmt::Edge(Edge { ty, attributes: attrs(&e.attributes, names) })
            }
        })
        .collect()
}

/// Whether anonymous ids of that name, and of names like it, print as nothing.
pub fn void(name: &str) -> bool {
    [name.to_string(), format!("{} \"<", name), format!("a{}", name)]
        .into_iter()
        .all(|v| Id::Anonymous(v).print(&mut PrinterContext::default()).is_empty())
}
