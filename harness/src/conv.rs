//! Real structures <-> JSON as the specification sees them.
use crate::json::*;
use dot_structures::*;

pub fn id_json(i: &Id) -> J {
    let (k, t) = match i {
        Id::Plain(v) => ("p", v.as_str()),
        Id::Escaped(v) => ("q", v.as_str()),
        Id::Html(v) => ("h", v.as_str()),
        // the name of an anonymous part is not part of the graph
        Id::Anonymous(_) => ("a", ""),
    };
    o(vec![("k", s(k)), ("t", codes(t))])
}
pub fn no_id() -> J {
    o(vec![("k", s("-")), ("t", codes(""))])
}
pub fn id_from(j: &J) -> Id {
    let t = j.get("t").text();
    match j.get("k").str() {
        "p" => Id::Plain(t),
        "q" => Id::Escaped(t),
        "h" => Id::Html(t),
        // some name, as a parser would have made one
        _ => Id::Anonymous("id_4711".to_string()),
    }
}

fn ev(o_: &str, a: J, b: J, c: &str, k: usize, f: &str) -> J {
    o(vec![("o", s(o_)), ("a", a), ("b", b), ("c", codes(c)), ("n", n(k)), ("f", s(f))])
}
fn ev0(o_: &str) -> J {
    ev(o_, no_id(), no_id(), "", 0, "")
}

/// The graph as events in the order the reader meets them.
pub fn events(g: &Graph) -> Vec<J> {
    let (id, stmts, f) = match g {
        Graph::Graph { id, strict, stmts } => (id, stmts, if *strict { "sg" } else { "g" }),
        Graph::DiGraph { id, strict, stmts } => (id, stmts, if *strict { "sd" } else { "d" }),
    };
    let mut out = vec![ev("graph", id_json(id), no_id(), "", 0, f)];
    body_events(stmts, &mut out);
    out.push(ev0("end"));
    out
}

fn body_events(stmts: &[Stmt], out: &mut Vec<J>) {
    for st in stmts {
        stmt_events(st, out)
    }
}
fn attr_events(attrs: &[Attribute], out: &mut Vec<J>) {
    for Attribute(k, v) in attrs {
        out.push(ev("attr", id_json(k), id_json(v), "", 0, ""))
    }
}
fn nid_event(x: &NodeId) -> J {
    let NodeId(id, port) = x;
    match port {
        None => ev("nid", id_json(id), no_id(), "", 0, ""),
        Some(Port(p, c)) => ev(
            "nid",
            id_json(id),
            p.as_ref().map(id_json).unwrap_or_else(no_id),
            c.as_deref().unwrap_or(""),
            0,
            if p.is_none() && c.is_none() { "emptyport" } else { "" },
        ),
    }
}
fn sub_events(x: &Subgraph, out: &mut Vec<J>) {
    out.push(ev("sub", id_json(&x.id), no_id(), "", 0, ""));
    body_events(&x.stmts, out);
    out.push(ev0("endsub"));
}
fn vertex_events(v: &Vertex, out: &mut Vec<J>) {
    match v {
        Vertex::N(x) => out.push(nid_event(x)),
        Vertex::S(x) => sub_events(x, out),
    }
}
fn stmt_events(st: &Stmt, out: &mut Vec<J>) {
    match st {
        Stmt::Node(x) => {
            out.push(nid_event(&x.id));
            attr_events(&x.attributes, out);
            out.push(ev0("node"));
        }
        Stmt::Subgraph(x) => {
            sub_events(x, out);
            out.push(ev0("substmt"));
        }
        Stmt::Attribute(Attribute(k, v)) => {
            out.push(ev("assign", id_json(k), id_json(v), "", 0, ""))
        }
        Stmt::GAttribute(x) => {
            let (ty, attrs) = match x {
                GraphAttributes::Graph(a) => ("graph", a),
                GraphAttributes::Node(a) => ("node", a),
                GraphAttributes::Edge(a) => ("edge", a),
            };
            out.push(ev("gattr", no_id(), no_id(), "", 0, ty));
            attr_events(attrs, out);
            out.push(ev0("endgattr"));
        }
        Stmt::Edge(e) => {
            let (k, f) = match &e.ty {
                EdgeTy::Pair(l, r) => {
                    vertex_events(l, out);
                    vertex_events(r, out);
                    (2, "pair")
                }
                EdgeTy::Chain(vs) => {
                    for v in vs {
                        vertex_events(v, out)
                    }
                    (vs.len(), "chain")
                }
            };
            attr_events(&e.attributes, out);
            out.push(ev("edge", no_id(), no_id(), "", k, f));
        }
    }
}

// ---- trees, for the printer ----

fn attrs_json(attrs: &[Attribute]) -> J {
    J::A(attrs
        .iter()
        .map(|Attribute(k, v)| o(vec![("key", id_json(k)), ("val", id_json(v))]))
        .collect())
}
fn nid_json(x: &NodeId) -> J {
    let NodeId(id, port) = x;
    let (p, c) = match port {
        None => (no_id(), ""),
        Some(Port(p, c)) => (p.as_ref().map(id_json).unwrap_or_else(no_id), c.as_deref().unwrap_or("")),
    };
    o(vec![("o", s("nid")), ("id", id_json(id)), ("port", p), ("comp", codes(c))])
}
fn sub_json(x: &Subgraph) -> J {
    o(vec![("o", s("sub")), ("id", id_json(&x.id)), ("body", body_json(&x.stmts))])
}
fn body_json(b: &[Stmt]) -> J {
    J::A(b.iter().map(stmt_json).collect())
}
fn vertex_json(v: &Vertex) -> J {
    match v {
        Vertex::N(x) => nid_json(x),
        Vertex::S(x) => sub_json(x),
    }
}
pub fn stmt_json(st: &Stmt) -> J {
    match st {
        Stmt::Node(x) => o(vec![("o", s("node")), ("nid", nid_json(&x.id)), ("at", attrs_json(&x.attributes))]),
        Stmt::Subgraph(x) => sub_json(x),
        Stmt::Attribute(Attribute(k, v)) => o(vec![("o", s("assign")), ("key", id_json(k)), ("val", id_json(v))]),
        Stmt::GAttribute(x) => {
            let (ty, a) = match x {
                GraphAttributes::Graph(a) => ("graph", a),
                GraphAttributes::Node(a) => ("node", a),
                GraphAttributes::Edge(a) => ("edge", a),
            };
            o(vec![("o", s("gattr")), ("ty", s(ty)), ("at", attrs_json(a))])
        }
        Stmt::Edge(e) => {
            let (pair, vs) = match &e.ty {
                EdgeTy::Pair(l, r) => (true, vec![vertex_json(l), vertex_json(r)]),
                EdgeTy::Chain(vs) => (false, vs.iter().map(vertex_json).collect()),
            };
            o(vec![("o", s("edge")), ("pair", J::B(pair)), ("vs", J::A(vs)), ("at", attrs_json(&e.attributes))])
        }
    }
}
pub fn graph_json(g: &Graph) -> J {
    let (di, id, strict, stmts) = match g {
        Graph::Graph { id, strict, stmts } => (false, id, strict, stmts),
        Graph::DiGraph { id, strict, stmts } => (true, id, strict, stmts),
    };
    o(vec![
        ("o", s("graph")),
        ("di", J::B(di)),
        ("strict", J::B(*strict)),
        ("id", id_json(id)),
        ("body", body_json(stmts)),
    ])
}

pub fn attr_from(j: &J) -> Attribute {
    Attribute(id_from(j.get("key")), id_from(j.get("val")))
}
fn attrs_from(j: &J) -> Vec<Attribute> {
    j.arr().iter().map(attr_from).collect()
}
pub fn nid_from(j: &J) -> NodeId {
    let p = j.get("port");
    let pid = if p.get("k").str() == "-" { None } else { Some(id_from(p)) };
    let c = j.get("comp").text();
    let c = if c.is_empty() { None } else { Some(c) };
    let port = if pid.is_none() && c.is_none() { None } else { Some(Port(pid, c)) };
    NodeId(id_from(j.get("id")), port)
}
pub fn sub_from(j: &J) -> Subgraph {
    Subgraph { id: id_from(j.get("id")), stmts: body_from(j.get("body")) }
}
fn body_from(j: &J) -> Vec<Stmt> {
    j.arr().iter().map(stmt_from).collect()
}
pub fn vertex_from(j: &J) -> Vertex {
    if j.get("o").str() == "nid" {
        Vertex::N(nid_from(j))
    } else {
        Vertex::S(sub_from(j))
    }
}
pub fn gattr_from(j: &J) -> GraphAttributes {
    let a = attrs_from(j.get("at"));
    match j.get("ty").str() {
        "graph" => GraphAttributes::Graph(a),
        "node" => GraphAttributes::Node(a),
        _ => GraphAttributes::Edge(a),
    }
}
pub fn node_from(j: &J) -> Node {
    Node { id: nid_from(j.get("nid")), attributes: attrs_from(j.get("at")) }
}
pub fn edge_from(j: &J) -> Edge {
    let mut vs: Vec<Vertex> = j.get("vs").arr().iter().map(vertex_from).collect();
    let ty = if j.get("pair").bool() {
        let r = vs.pop().unwrap();
        let l = vs.pop().unwrap();
        EdgeTy::Pair(l, r)
    } else {
        EdgeTy::Chain(vs)
    };
    Edge { ty, attributes: attrs_from(j.get("at")) }
}
pub fn stmt_from(j: &J) -> Stmt {
    match j.get("o").str() {
        "node" => Stmt::Node(node_from(j)),
        "sub" => Stmt::Subgraph(sub_from(j)),
        "assign" => Stmt::Attribute(attr_from(j)),
        "gattr" => Stmt::GAttribute(gattr_from(j)),
        _ => Stmt::Edge(edge_from(j)),
    }
}
pub fn graph_from(j: &J) -> Graph {
    let id = id_from(j.get("id"));
    let strict = j.get("strict").bool();
    let stmts = body_from(j.get("body"));
    if j.get("di").bool() {
        Graph::DiGraph { id, strict, stmts }
    } else {
        Graph::Graph { id, strict, stmts }
    }
}

/// Generated names removed, for comparing graphs.
pub fn strip(g: &Graph) -> Graph {
    graph_from(&graph_json(g))
}
