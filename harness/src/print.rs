//! Driving real printer contexts.
use crate::conv::*;
use crate::gen::{self, Profile};
use crate::json::*;
use crate::rng::Rng;
use dot_structures::*;
use graphviz_rust::printer::{AttributeValuePrinter, DotPrinter, PrinterContext};

/// The value printer called `tag`, see Formatted in the specification.
pub fn value_printer(tag: String) -> Box<AttributeValuePrinter> {
    Box::new(move |v: &str, ls: &str, ind: &str, step: usize| match tag.chars().next() {
        Some('K') => tag[1..].to_string(),
        Some('V') => format!("{}{}", v, &tag[1..]),
        Some('W') => format!("{}{}", &tag[1..], v),
        _ => format!("{}<{}|{}|{}|{}>", tag, v, ls, ind, step),
    })
}
/// Tags of value printers.
pub fn tag(r: &mut Rng) -> String {
    if r.pct(60) {
        return r.pick(&["P", "QQ", "\"x", "é", "", "r\n"]).to_string();
    }
    let ends = ["", " ", "  ", "\n", "\r\n", "\t", "]", "}", ";", ",", "\"", "\\", "<", ">", "{", "=", "é", "\u{a0}", "x", "\0"];
    let mut t = r.pick(&["K", "V", "W"]).to_string();
    for _ in 0..r.range(0, 3) {
        t.push_str(*r.pick(&ends));
    }
    t
}

/// A context with the given settings, made by the setters or by `new`.
pub fn context(set: &J, by_new: bool) -> PrinterContext {
    let ls = set.get("ls").text();
    let step = set.get("step").int() as usize;
    let size = set.get("size").int() as usize;
    let semi = set.get("semi").bool();
    let mut c;
    if by_new {
        c = PrinterContext::new(semi, step, ls, size);
    } else {
        c = PrinterContext::default();
        if ls.is_empty() {
            c.always_inline();
        } else if ls != "\n" {
            c.with_line_sep(ls);
        }
        if step != 2 {
            c.with_indent_step(step);
        }
        if size != 90 {
            c.with_inline_size(size);
        }
        if semi {
            c.with_semi();
        }
    }
    if set.get("multi").bool() {
        c.with_node_mult_attr_s_l();
    }
    if !set.get("comma").bool() {
        c.with_no_node_mult_attr_s_l_comma();
    }
    for f in set.get("fm").arr() {
        c.with_attr_value_printer(id_from(f.get("id")), value_printer(f.get("tag").text()));
    }
    c
}

/// Settings whose separators are white space.
pub fn settings(r: &mut Rng) -> J {
    let ls = *r.pick(&["\n", "\n", "\n", "", "", " ", "\r\n", "\t", "\n\n", " \n", "   "]);
    settings_with(r, ls)
}
/// for big graphs
pub fn big_settings(r: &mut Rng) -> J {
    let ls = *r.pick(&["\n", "\n", "", "\r\n"]);
    o(vec![
        ("ls", codes(ls)),
        ("step", n(*r.pick(&[0, 1, 2]))),
        ("size", n(*r.pick(&[0, 25, 90, 90, 1000, 100000]))),
        ("semi", J::B(r.pct(40))),
        ("multi", J::B(r.pct(45))),
        ("comma", J::B(r.pct(60))),
        ("fm", J::A(vec![])),
    ])
}
fn settings_with(r: &mut Rng, ls: &str) -> J {
    o(vec![
        ("ls", codes(ls)),
        ("step", n(*r.pick(&[0, 1, 2, 2, 3, 4, 8, 17]))),
        ("size", n(*r.pick(&[0, 1, 8, 15, 25, 40, 60, 90, 90, 90, 120, 1000, 100000]))),
        ("semi", J::B(r.pct(40))),
        ("multi", J::B(r.pct(45))),
        ("comma", J::B(r.pct(60))),
        ("fm", J::A(vec![])),
    ])
}

// ---- lives of one context ----

/// One call, as data.
#[derive(Clone)]
pub enum Call {
    Inline,
    Sep(String),
    Semi,
    Multi,
    NoComma,
    Step(usize),
    Size(usize),
    Printer(Id, String),
    Graph(Graph),
    Elem(Elem),
}
#[derive(Clone)]
pub enum Elem {
    Id(Id),
    Nid(NodeId),
    Attrs(Vec<Attribute>),
    Attr(Attribute),
    Gattr(GraphAttributes),
    Node(Node),
    Sub(Subgraph),
    VSub(Subgraph),
    Edge(Edge),
    Stmt(Stmt),
    Body(Vec<Stmt>),
}

impl Elem {
    pub fn json(&self) -> J {
        match self {
            Elem::Id(i) => o(vec![("o", s("id")), ("id", id_json(i))]),
            Elem::Nid(x) => match stmt_json(&Stmt::Node(Node { id: x.clone(), attributes: vec![] })) {
                j => j.get("nid").clone(),
            },
            Elem::Attrs(a) => {
                let j = stmt_json(&Stmt::GAttribute(GraphAttributes::Node(a.clone())));
                o(vec![("o", s("attrs")), ("at", j.get("at").clone())])
            }
            Elem::Attr(a) => stmt_json(&Stmt::Attribute(a.clone())),
            Elem::Gattr(a) => stmt_json(&Stmt::GAttribute(a.clone())),
            Elem::Node(x) => stmt_json(&Stmt::Node(x.clone())),
            Elem::Sub(x) | Elem::VSub(x) => stmt_json(&Stmt::Subgraph(x.clone())),
            Elem::Edge(x) => stmt_json(&Stmt::Edge(x.clone())),
            Elem::Stmt(x) => o(vec![("o", s("stmt")), ("stmt", stmt_json(x))]),
            Elem::Body(b) => o(vec![("o", s("body")), ("body", J::A(b.iter().map(stmt_json).collect()))]),
        }
    }
    pub fn from(j: &J) -> Elem {
        match j.get("o").str() {
            "id" => Elem::Id(id_from(j.get("id"))),
            "nid" => Elem::Nid(nid_from(j)),
            "attrs" => match gattr_from(&o(vec![("ty", s("node")), ("at", j.get("at").clone())])) {
                GraphAttributes::Node(a) => Elem::Attrs(a),
                _ => unreachable!(),
            },
            "assign" => Elem::Attr(attr_from(j)),
            "gattr" => Elem::Gattr(gattr_from(j)),
            "node" => Elem::Node(node_from(j)),
            "sub" => Elem::Sub(sub_from(j)),
            "edge" => Elem::Edge(edge_from(j)),
            "stmt" => Elem::Stmt(stmt_from(j.get("stmt"))),
            _ => Elem::Body(j.get("body").arr().iter().map(stmt_from).collect()),
        }
    }
    pub fn print(&self, c: &mut PrinterContext) -> String {
        match self {
            Elem::Id(x) => x.print(c),
            Elem::Nid(x) => x.print(c),
            Elem::Attrs(x) => x.print(c),
            Elem::Attr(x) => x.print(c),
            Elem::Gattr(x) => x.print(c),
            Elem::Node(x) => x.print(c),
            Elem::Sub(x) => x.print(c),
            Elem::VSub(x) => Vertex::S(x.clone()).print(c),
            Elem::Edge(x) => x.print(c),
            Elem::Stmt(x) => x.print(c),
            Elem::Body(x) => x.print(c),
        }
    }
}

impl Call {
    pub fn json(&self) -> J {
        match self {
            Call::Inline => o(vec![("op", s("inline"))]),
            Call::Sep(l) => o(vec![("op", s("sep")), ("ls", codes(l))]),
            Call::Semi => o(vec![("op", s("semi"))]),
            Call::Multi => o(vec![("op", s("multi"))]),
            Call::NoComma => o(vec![("op", s("nocomma"))]),
            Call::Step(k) => o(vec![("op", s("step")), ("n", n(*k))]),
            Call::Size(k) => o(vec![("op", s("size")), ("n", n(*k))]),
            Call::Printer(i, t) => o(vec![("op", s("printer")), ("id", id_json(i)), ("tag", codes(t))]),
            Call::Graph(g) => o(vec![("op", s("graph")), ("x", graph_json(g))]),
            Call::Elem(e) => o(vec![("op", s("elem")), ("x", e.json())]),
        }
    }
    pub fn from(j: &J) -> Call {
        match j.get("op").str() {
            "inline" => Call::Inline,
            "sep" => Call::Sep(j.get("ls").text()),
            "semi" => Call::Semi,
            "multi" => Call::Multi,
            "nocomma" => Call::NoComma,
            "step" => Call::Step(j.get("n").int() as usize),
            "size" => Call::Size(j.get("n").int() as usize),
            "printer" => Call::Printer(id_from(j.get("id")), j.get("tag").text()),
            "graph" => Call::Graph(graph_from(j.get("x"))),
            _ => Call::Elem(Elem::from(j.get("x"))),
        }
    }
    /// The text a print returned.
    pub fn run(&self, c: &mut PrinterContext, flip: bool) -> Option<String> {
        match self {
            Call::Inline => drop(c.always_inline()),
            Call::Sep(l) => drop(c.with_line_sep(l.clone())),
            Call::Semi => drop(c.with_semi()),
            Call::Multi => drop(c.with_node_mult_attr_s_l()),
            Call::NoComma => drop(c.with_no_node_mult_attr_s_l_comma()),
            Call::Step(k) => drop(c.with_indent_step(*k)),
            Call::Size(k) => drop(c.with_inline_size(*k)),
            Call::Printer(i, t) => drop(c.with_attr_value_printer(i.clone(), value_printer(t.clone()))),
            // both ways to print a graph
            Call::Graph(g) if flip => return Some(graphviz_rust::print(g.clone(), c)),
            Call::Graph(g) => return Some(g.print(c)),
            Call::Elem(e) => return Some(e.print(c)),
        }
        None
    }
}

/// every attribute key of a graph, for registering printers
pub fn keys(j: &J, out: &mut Vec<Id>) {
    match j {
        J::O(f) => {
            for (k, v) in f {
                if k == "key" {
                    out.push(id_from(v))
                } else {
                    keys(v, out)
                }
            }
        }
        J::A(v) => v.iter().for_each(|x| keys(x, out)),
        _ => {}
    }
}
fn edges<'a>(b: &'a [Stmt], out: &mut Vec<&'a Edge>) {
    for s in b {
        match s {
            Stmt::Edge(e) => out.push(e),
            Stmt::Subgraph(x) => edges(&x.stmts, out),
            _ => {}
        }
    }
}

fn graph_stmts(g: &Graph) -> &[Stmt] {
    match g {
        Graph::Graph { stmts, .. } | Graph::DiGraph { stmts, .. } => stmts,
    }
}

pub fn elem(r: &mut Rng, p: &Profile) -> Elem {
    match r.below(11) {
        0 => Elem::Id(gen::id(r, p)),
        1 => Elem::Nid(gen::node_id(r, p)),
        2 => Elem::Attrs(gen::attrs(r, p)),
        3 => Elem::Attr(Attribute(gen::id(r, p), gen::id(r, p))),
        4 => Elem::Gattr(GraphAttributes::Edge(gen::attrs(r, p))),
        5 => Elem::Node(Node { id: gen::node_id(r, p), attributes: gen::attrs(r, p) }),
        6 => Elem::Sub(gen::subgraph(r, p, 1)),
        7 => Elem::VSub(gen::subgraph(r, p, 1)),
        8 => Elem::Stmt(gen::stmt(r, p, 2)),
        9 => Elem::Body((0..r.range(0, 3)).map(|_| gen::stmt(r, p, 1)).collect()),
        _ => Elem::Edge(gen::edge(r, p, 2)),
    }
}

pub struct LifeStyle {
    pub calls: usize,
    pub graphs: usize,
    pub printers: usize,
    pub elems: usize,
}

/// A random life of a context.
pub fn life(r: &mut Rng, st: &LifeStyle) -> (Option<J>, Vec<Call>) {
    let p = match r.below(4) {
        0 => Profile::ids(),
        1 => Profile { depth: 3, stmts: 5, attrs: 5, verts: 4, long: 10, ..Profile::structure() },
        _ => Profile { depth: 2, stmts: 4, attrs: 4, verts: 3, long: 12, ..Profile::mixed() },
    };
    let graphs: Vec<Graph> = (0..st.graphs).map(|_| gen::graph(r, &p)).collect();
    let mut ks = vec![];
    for g in &graphs {
        keys(&graph_json(g), &mut ks)
    }
    // keys that differ in kind only
    let more: Vec<Id> = ks
        .iter()
        .filter_map(|k| match k {
            Id::Plain(v) => Some(Id::Escaped(format!("\"{}\"", v))),
            Id::Escaped(v) if v.len() > 2 => Some(Id::Plain(v[1..v.len() - 1].to_string())),
            _ => None,
        })
        .collect();
    ks.extend(more);
    ks.push(Id::Plain("label".to_string()));
    let mut es = vec![];
    for g in &graphs {
        edges(graph_stmts(g), &mut es)
    }
    let es: Vec<Edge> = es.into_iter().cloned().collect();
    let mut made = if r.pct(40) { Some(settings(r)) } else { None };
    if made.is_some() && r.pct(30) {
        let ls = *r.pick(&["", "; ", "~", "\n\u{a0}", "é\n"]);
        made = Some(settings_with(r, ls));
    }
    let mut calls = vec![];
    let k = r.range(1, st.calls);
    for _ in 0..k {
        let c = match r.below(100) {
            0..=6 => Call::Inline,
            7..=16 => Call::Sep(r.pick(&["\n", "\n", "\n", "\r\n", "", " ", "\t", "\n\n", "; ", "é\n"]).to_string()),
            17..=22 => Call::Semi,
            23..=30 => Call::Multi,
            31..=36 => Call::NoComma,
            37..=44 => Call::Step(*r.pick(&[0, 1, 2, 3, 4, 7, 16])),
            45..=52 => {
                // around the length at which an edge changes its form
                if !es.is_empty() && r.pct(60) {
                    let e = r.pick(&es).clone();
                    let mut c = PrinterContext::default();
                    c.with_inline_size(0);
                    let l = crate::quiet(|| e.print(&mut c).len()).unwrap_or(40);
                    Call::Size((l + r.below(5)).saturating_sub(2))
                } else {
                    Call::Size(*r.pick(&[0, 1, 10, 20, 30, 45, 60, 90, 200, 100000]))
                }
            }
            x if x < 53 + st.printers => {
                Call::Printer(r.pick(&ks).clone(), tag(r))
            }
            _ if r.pct(st.elems) => Call::Elem(elem(r, &p)),
            _ => Call::Graph(r.pick(&graphs).clone()),
        };
        calls.push(c)
    }
    // a life ends with a print
    calls.push(Call::Graph(r.pick(&graphs).clone()));
    (made, calls)
}
