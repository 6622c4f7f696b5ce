//! Random graphs and documents with heavy tails.
use crate::rng::Rng;
use dot_structures::*;

#[derive(Clone, Copy, PartialEq)]
pub enum IdStyle {
    /// short words mostly
    Simple,
    /// every lexical form, odd spellings
    Odd,
}

#[derive(Clone)]
pub struct Profile {
    pub ids: IdStyle,
    pub depth: usize,
    pub stmts: usize,
    pub attrs: usize,
    pub verts: usize,
    /// html ids may hold any text that is balanced
    pub long: usize,
}

impl Profile {
    pub fn structure() -> Profile {
        Profile { ids: IdStyle::Simple, depth: 5, stmts: 12, attrs: 9, verts: 8, long: 12 }
    }
    pub fn ids() -> Profile {
        Profile { ids: IdStyle::Odd, depth: 1, stmts: 3, attrs: 3, verts: 3, long: 60 }
    }
    pub fn mixed() -> Profile {
        Profile { ids: IdStyle::Odd, depth: 3, stmts: 6, attrs: 4, verts: 5, long: 24 }
    }
}

pub const COMPASS: [&str; 10] = ["n", "ne", "e", "se", "s", "sw", "w", "nw", "c", "_"];
const WORDS: [&str; 43] = [
    "a", "b", "c", "n", "ne", "e", "s", "sw", "_", "x1", "node1", "nodes", "edge_", "edges", "graph2",
    "graphs", "digraphs", "strictly", "strict_", "subgraphs", "subgraph_1", "Nodal", "label", "color",
    "rank", "A", "Z9", "_0", "__", "cluster_0", "N", "NE", "center", "ab", "abc", "red", "bold", "nodeé",
    "graphé", "w1", "ſtrict", "ſubgraph", "e1",
];
const LETTERS: [&str; 35] = [
    "e\u{301}", "\u{212b}", "\u{301}",
    "a", "b", "z", "A", "M", "Z", "_", "é", "ß", "Ж", "λ", "日", "本", "\u{80}", "\u{a0}", "😀", "\u{10ffff}", "ÿ", "\u{3000}",
    "n", "e", "x", "\u{85}", "\u{200b}", "\u{200d}", "\u{2028}", "\u{300}", "\u{130}", "ſ", "\u{212a}", "\u{fffd}", "\u{e000}",
];
const QCHARS: [&str; 66] = [
    "a", "b", " ", " ", "1", "\\n", "\\\"", "\\\\", "\\l", "\\N", "\n", "\r\n", "\t", "{", "}", "[", "]", ";",
    ",", "=", ":", "--", "->", "//", "/*", "*/", "#", "<", ">", "'", "`", "é", "日本", "😀", "&amp;", "|", "%", "$",
    "\\\n", "\\é", "+", "-", ".", "graph", "\u{0}", "\\G",
    "\u{feff}", "\u{85}", "\u{a0}", "\u{200b}", "\u{2028}", "\u{2029}", "\u{fffd}", "\u{ffff}", "\u{7f}", "\u{b}", "\u{c}",
    "\u{1b}", "\u{300}", "“", "\u{10fffe}", "\u{202e}", "\r", "\\\r\n", "\\ ", "\\\t",
];
const HCHARS: [&str; 46] = [
    "a", "b", " ", "<b>", "</b>", "<br/>", "<i>x</i>", "<td port=\"p\">", "</td>", "\"", "'", "\n", "\r\n", "&lt;",
    "&#60;", "<<>>", "<>", "é", "日", "😀", "{", "}", "[", "]", ";", "=", "->", "/*", "*/", "//", "#", "\\", "--", ":",
    "\u{feff}", "\u{0}", "\u{85}", "\u{2028}", "\u{fffd}", "\u{ffff}", "\u{7f}", "\r", "\t", "<!-- x -->", "\u{300}", "\u{a0}",
];

/// what is often written in such documents, and may tempt to be taken for more than it is
const OFTEN: [&str; 44] = [
    "rank", "same", "label", "shape", "record", "cluster", "cluster_1", "clusterA", "style", "invis", "dashed", "true", "false", "none", "pos", "width",
    "lhead", "constraint", "splines", "ortho", "fontname", "html", "esc", "anon", "id_1",
    "\"#ff0000\"", "\"1,2\"", "\"{<f0> a|b}\"", "\"\\N\"", "\"\\l\"", "\"a:p\"", "\"true\"", "\"node\"", "\"cluster_1\"", "\"label\"", "\"http://a/b\"", "\"red:blue\"",
    "<<table><tr><td>x</td></tr></table>>", "<i>", "\"a b\"", "\"12\"", "\"{}\"", "\"%s\"", "\"\"",
];
fn often(r: &mut Rng) -> Id {
    let t = r.pick(&OFTEN).to_string();
    match t.as_bytes()[0] {
        b'"' => Id::Escaped(t),
        b'<' => Id::Html(t),
        _ => Id::Plain(t),
    }
}

fn repeat_pick(r: &mut Rng, xs: &[&str], max: usize) -> String {
    let k = r.size(max);
    (0..k).map(|_| *r.pick(xs)).collect()
}

pub fn is_keyword(w: &str) -> bool {
    ["graph", "digraph", "subgraph", "node", "edge", "strict"].iter().any(|k| w.eq_ignore_ascii_case(k))
}

pub fn word(r: &mut Rng, p: &Profile) -> String {
    loop {
        let w = if r.pct(50) {
            r.pick(&WORDS).to_string()
        } else {
            let mut w = r.pick(&LETTERS).to_string();
            let k = r.size(p.long);
            for _ in 0..k {
                if r.pct(30) {
                    w.push(char::from(b'0' + r.below(10) as u8))
                } else {
                    w.push_str(r.pick(&LETTERS))
                }
            }
            w
        };
        if !is_keyword(&w) {
            return w;
        }
    }
}

pub fn numeral(r: &mut Rng) -> String {
    let digits = |r: &mut Rng, min: usize| -> String {
        let k = r.size(12).max(min);
        (0..k).map(|_| char::from(b'0' + if r.pct(30) { 0 } else { r.below(10) as u8 })).collect()
    };
    let sign = if r.pct(35) { "-" } else { "" };
    let body = match r.below(5) {
        0 => format!(".{}", digits(r, 1)),
        1 => format!("{}.", digits(r, 1)),
        2 => format!("{}.{}", digits(r, 1), digits(r, 1)),
        _ => digits(r, 1),
    };
    format!("{}{}", sign, body)
}

pub fn quoted(r: &mut Rng, p: &Profile) -> String {
    format!("\"{}\"", repeat_pick(r, &QCHARS, p.long))
}

pub fn html(r: &mut Rng, p: &Profile) -> String {
    // balance the brackets
    let mut t = String::new();
    let mut d: i32 = 0;
    for c in repeat_pick(r, &HCHARS, p.long).chars() {
        match c {
            '<' => d += 1,
            '>' if d == 0 => continue,
            '>' => d -= 1,
            _ => {}
        }
        t.push(c)
    }
    for _ in 0..d {
        t.push('>')
    }
    // <! is left open by the specification
    format!("<{}>", t.replace("<!", "<"))
}

pub fn id(r: &mut Rng, p: &Profile) -> Id {
    if r.pct(12) {
        return often(r);
    }
    match p.ids {
        IdStyle::Simple => match r.below(20) {
            0..=13 => Id::Plain(r.pick(&WORDS).to_string()),
            14 => Id::Plain(word(r, p)),
            15 | 16 => Id::Plain(numeral(r)),
            17 | 18 => Id::Escaped(quoted(r, p)),
            _ => Id::Html(html(r, p)),
        },
        IdStyle::Odd => match r.below(10) {
            0..=2 => Id::Plain(word(r, p)),
            3 | 4 => Id::Plain(numeral(r)),
            5..=7 => Id::Escaped(quoted(r, p)),
            _ => Id::Html(html(r, p)),
        },
    }
}

fn compass(r: &mut Rng) -> String {
    r.pick(&COMPASS).to_string()
}

pub fn node_id(r: &mut Rng, p: &Profile) -> NodeId {
    let chance = if p.ids == IdStyle::Odd { 50 } else { 20 };
    let port = if r.pct(chance) {
        Some(match r.below(3) {
            0 => Port(None, Some(compass(r))),
            k => {
                let pid = id(r, p);
                if k == 1 {
                    Port(Some(pid), Some(compass(r)))
                } else {
                    match pid {
                        // a lone plain compass word is a compass point
                        Id::Plain(w) if COMPASS.contains(&w.as_str()) => Port(None, Some(w)),
                        pid => Port(Some(pid), None),
                    }
                }
            }
        })
    } else {
        None
    };
    NodeId(id(r, p), port)
}

/// Now and then something stands there again, next to itself or elsewhere.
fn again<T: Clone>(r: &mut Rng, xs: &mut Vec<T>) {
    if xs.is_empty() || !r.pct(14) {
        return;
    }
    for _ in 0..r.range(1, 2) {
        let k = r.below(xs.len());
        let x = xs[k].clone();
        let at = match r.below(4) {
            0 => r.below(xs.len() + 1),
            1 => 0,
            _ => k,
        };
        xs.insert(at, x)
    }
}

pub fn attrs(r: &mut Rng, p: &Profile) -> Vec<Attribute> {
    let k = r.size(p.attrs);
    let mut a: Vec<Attribute> = (0..k).map(|_| Attribute(id(r, p), id(r, p))).collect();
    again(r, &mut a);
    // the same key with another value
    if a.len() > 1 && r.pct(10) {
        let (i, j) = (r.below(a.len()), r.below(a.len()));
        a[i].0 = a[j].0.clone()
    }
    a
}

fn opt_id(r: &mut Rng, p: &Profile) -> Id {
    if r.pct(35) {
        Id::Anonymous(format!("id_{}", r.below(1 << 30)))
    } else if r.pct(30) {
        // few names: the same subgraph in several places
        Id::Plain(r.pick(&["s", "s", "cluster0", "cluster1", "a"]).to_string())
    } else {
        id(r, p)
    }
}

pub fn subgraph(r: &mut Rng, p: &Profile, depth: usize) -> Subgraph {
    Subgraph { id: opt_id(r, p), stmts: body(r, p, depth) }
}

fn vertex(r: &mut Rng, p: &Profile, depth: usize) -> Vertex {
    if depth > 0 && r.pct(25) {
        Vertex::S(subgraph(r, p, depth - 1))
    } else {
        Vertex::N(node_id(r, p))
    }
}

pub fn edge(r: &mut Rng, p: &Profile, depth: usize) -> Edge {
    let l = vertex(r, p, depth);
    let x = if r.pct(8) { l.clone() } else { vertex(r, p, depth) };
    let attributes = attrs(r, p);
    if r.pct(55) {
        Edge { ty: EdgeTy::Pair(l, x), attributes }
    } else {
        let mut vs = vec![l, x];
        let k = 1 + r.size(p.verts);
        for _ in 0..k {
            vs.push(vertex(r, p, depth))
        }
        again(r, &mut vs);
        // the same again under another name, or another under the same
        if r.pct(12) {
            let (i, j) = (r.below(vs.len()), r.below(vs.len()));
            if let (Vertex::S(x), Vertex::S(y)) = (vs[i].clone(), &mut vs[j]) {
                if r.pct(50) {
                    y.id = x.id
                } else {
                    y.stmts = x.stmts
                }
            }
        }
        Edge { ty: EdgeTy::Chain(vs), attributes }
    }
}

pub fn stmt(r: &mut Rng, p: &Profile, depth: usize) -> Stmt {
    match r.below(10) {
        0..=2 => Stmt::Node(Node { id: node_id(r, p), attributes: attrs(r, p) }),
        3..=5 => Stmt::Edge(edge(r, p, depth)),
        6 => Stmt::Attribute(Attribute(id(r, p), id(r, p))),
        7 => {
            let a = attrs(r, p);
            Stmt::GAttribute(match r.below(3) {
                0 => GraphAttributes::Graph(a),
                1 => GraphAttributes::Node(a),
                _ => GraphAttributes::Edge(a),
            })
        }
        _ if depth > 0 => Stmt::Subgraph(subgraph(r, p, depth - 1)),
        _ => Stmt::Node(Node { id: node_id(r, p), attributes: vec![] }),
    }
}

fn body(r: &mut Rng, p: &Profile, depth: usize) -> Vec<Stmt> {
    let k = r.size(p.stmts);
    let mut b: Vec<Stmt> = (0..k).map(|_| stmt(r, p, depth)).collect();
    again(r, &mut b);
    b
}

pub fn make_graph(di: bool, strict: bool, id: Id, stmts: Vec<Stmt>) -> Graph {
    if di {
        Graph::DiGraph { id, strict, stmts }
    } else {
        Graph::Graph { id, strict, stmts }
    }
}

pub fn graph(r: &mut Rng, p: &Profile) -> Graph {
    let stmts = match r.below(12) {
        // once in a while something long or deep
        0 => long_body(r, p),
        1 => terse_body(r),
        _ => {
            let mut b = body(r, p, p.depth);
            if b.is_empty() && !r.pct(30) {
                b.push(stmt(r, p, p.depth))
            }
            b
        }
    };
    make_graph(r.pct(50), r.pct(30), opt_id(r, p), stmts)
}

/// short statements of ids of every kind next to each other
fn terse_body(r: &mut Rng) -> Vec<Stmt> {
    const SHORT: [&str; 20] =
        ["a", "b", "e", "n", "_", "é", "x1", "1", "0", "-1", "-2", ".5", "-.5", "1.", "-3.", "\"\"", "\"-\"", "<>", "<->", "\"q\""];
    let one = |r: &mut Rng| {
        let t = r.pick(&SHORT).to_string();
        match t.chars().next() {
            Some('"') => Id::Escaped(t),
            Some('<') => Id::Html(t),
            _ => Id::Plain(t),
        }
    };
    let k = r.range(1, 9);
    (0..k)
        .map(|_| match r.below(10) {
            0 | 1 => Stmt::Attribute(Attribute(one(r), one(r))),
            2 => Stmt::Edge(Edge { ty: EdgeTy::Pair(Vertex::N(NodeId(one(r), None)), Vertex::N(NodeId(one(r), None))), attributes: vec![] }),
            3 => Stmt::Node(Node { id: NodeId(one(r), Some(Port(Some(one(r)), Some(compass(r))))), attributes: vec![] }),
            4 => Stmt::Node(Node { id: NodeId(one(r), Some(Port(Some(Id::Plain("7".into())), None))), attributes: vec![] }),
            5 => Stmt::Node(Node { id: NodeId(one(r), None), attributes: vec![Attribute(one(r), one(r)), Attribute(one(r), one(r))] }),
            6 => Stmt::GAttribute(GraphAttributes::Edge(vec![])),
            _ => Stmt::Node(Node { id: NodeId(one(r), None), attributes: vec![] }),
        })
        .collect()
}

/// one dimension stretched far beyond the usual
fn long_body(r: &mut Rng, p: &Profile) -> Vec<Stmt> {
    let small = Profile { ids: IdStyle::Simple, depth: 0, stmts: 2, attrs: 1, verts: 1, long: 4 };
    match r.below(6) {
        0 => {
            let k = r.range(10, 45);
            (0..k).map(|_| stmt(r, &small, 0)).collect()
        }
        1 => {
            let k = r.range(8, 40);
            let a = (0..k).map(|_| Attribute(id(r, &small), id(r, &small))).collect();
            vec![Stmt::Node(Node { id: node_id(r, p), attributes: a })]
        }
        2 => {
            let k = r.range(8, 40);
            let vs = (0..k).map(|_| vertex(r, &small, 0)).collect();
            vec![Stmt::Edge(Edge { ty: EdgeTy::Chain(vs), attributes: attrs(r, &small) })]
        }
        3 => {
            // subgraphs in subgraphs
            let mut s = vec![stmt(r, &small, 0)];
            for _ in 0..r.range(5, 40) {
                s = vec![Stmt::Subgraph(Subgraph { id: opt_id(r, &small), stmts: s })];
                if r.pct(20) {
                    s.push(stmt(r, &small, 0))
                }
            }
            s
        }
        4 => {
            // subgraphs as vertices of edges in subgraphs
            let mut s = vec![stmt(r, &small, 0)];
            for _ in 0..r.range(3, 36) {
                let v = Vertex::S(Subgraph { id: opt_id(r, &small), stmts: s });
                let w = Vertex::N(node_id(r, &small));
                let ty = match r.below(3) {
                    0 => EdgeTy::Pair(v, w),
                    1 => EdgeTy::Pair(w, v),
                    _ => EdgeTy::Chain(vec![w.clone(), v, w]),
                };
                s = vec![Stmt::Edge(Edge { ty, attributes: attrs(r, &small) })];
                if r.pct(20) {
                    s.push(stmt(r, &small, 0))
                }
            }
            s
        }
        _ => {
            let long = Profile { long: 160, ..p.clone() };
            let k = r.range(1, 2);
            (0..k).map(|_| Stmt::Attribute(Attribute(id(r, &long), id(r, &long)))).collect()
        }
    }
}

// ---- texts ----

/// optional parts: how they are written
#[derive(Clone, Copy, Default)]
pub struct Writing {
    /// chance of an optional ; , or ; in attribute lists, in percent
    pub semi: usize,
    pub comma: usize,
    /// chance of splitting an attribute list after an attribute
    pub split: usize,
    /// chance of leaving out "subgraph"
    pub bare: usize,
    /// chance of another letter case in keywords
    pub case: usize,
}

impl Writing {
    pub fn random(r: &mut Rng) -> Writing {
        let c = [0, 10, 50, 100];
        Writing {
            semi: *r.pick(&c),
            comma: *r.pick(&c),
            split: *r.pick(&[0, 0, 15, 50]),
            bare: *r.pick(&c),
            case: *r.pick(&[0, 0, 0, 30, 100]),
        }
    }
}

struct W<'a> {
    t: Vec<String>,
    r: &'a mut Rng,
    w: Writing,
    di: bool,
}

impl W<'_> {
    fn p(&mut self, s: &str) {
        self.t.push(s.to_string())
    }
    fn kw(&mut self, s: &str) {
        let c = self.w.case;
        let t: String = if self.r.pct(c) {
            s.chars().map(|c| if self.r.pct(50) { c.to_ascii_uppercase() } else { c }).collect()
        } else {
            s.to_string()
        };
        self.t.push(t)
    }
    fn id(&mut self, i: &Id) {
        match i {
            Id::Anonymous(_) => {}
            Id::Plain(v) | Id::Escaped(v) | Id::Html(v) => self.t.push(v.clone()),
        }
    }
    fn nid(&mut self, x: &NodeId) {
        self.id(&x.0);
        if let Some(Port(p, c)) = &x.1 {
            if let Some(p) = p {
                self.p(":");
                self.id(p)
            }
            if let Some(c) = c {
                self.p(":");
                self.p(c)
            }
        }
    }
    fn attrs(&mut self, a: &[Attribute], always: bool) {
        if a.is_empty() {
            let c = self.w.split;
            if always || self.r.pct(c / 2) {
                self.p("[");
                self.p("]");
            }
            return;
        }
        self.p("[");
        for (i, Attribute(k, v)) in a.iter().enumerate() {
            self.id(k);
            self.p("=");
            self.id(v);
            let c = self.w.comma;
            if self.r.pct(c) {
                if self.r.pct(60) {
                    self.p(",")
                } else {
                    self.p(";")
                }
            }
            let c = self.w.split;
            if i + 1 < a.len() && self.r.pct(c) {
                self.p("]");
                if self.r.pct(10) {
                    self.p("[");
                    self.p("]");
                }
                self.p("[");
            }
        }
        self.p("]");
    }
    fn sub(&mut self, x: &Subgraph) {
        let c = self.w.bare;
        let anon = matches!(x.id, Id::Anonymous(_));
        if !(anon && self.r.pct(c)) {
            self.kw("subgraph");
            self.id(&x.id);
        }
        self.body(&x.stmts);
    }
    fn vertex(&mut self, v: &Vertex) {
        match v {
            Vertex::N(x) => self.nid(x),
            Vertex::S(x) => self.sub(x),
        }
    }
    fn body(&mut self, b: &[Stmt]) {
        self.p("{");
        for st in b {
            match st {
                Stmt::Node(x) => {
                    self.nid(&x.id);
                    self.attrs(&x.attributes, false);
                }
                Stmt::Subgraph(x) => self.sub(x),
                Stmt::Attribute(Attribute(k, v)) => {
                    self.id(k);
                    self.p("=");
                    self.id(v);
                }
                Stmt::GAttribute(x) => {
                    let (k, a) = match x {
                        GraphAttributes::Graph(a) => ("graph", a),
                        GraphAttributes::Node(a) => ("node", a),
                        GraphAttributes::Edge(a) => ("edge", a),
                    };
                    self.kw(k);
                    self.attrs(a, true);
                }
                Stmt::Edge(e) => {
                    let vs: Vec<&Vertex> = match &e.ty {
                        EdgeTy::Pair(l, r) => vec![l, r],
                        EdgeTy::Chain(vs) => vs.iter().collect(),
                    };
                    for (i, v) in vs.iter().enumerate() {
                        if i > 0 {
                            let op = if self.di { "->" } else { "--" };
                            self.p(op);
                        }
                        self.vertex(v);
                    }
                    self.attrs(&e.attributes, false);
                }
            }
            let c = self.w.semi;
            if self.r.pct(c) {
                self.p(";")
            }
        }
        self.p("}");
    }
}

/// The graph as tokens, optional parts as asked for.
pub fn tokens(g: &Graph, r: &mut Rng, w: Writing) -> Vec<String> {
    let (di, id, strict, stmts) = match g {
        Graph::Graph { id, strict, stmts } => (false, id, strict, stmts),
        Graph::DiGraph { id, strict, stmts } => (true, id, strict, stmts),
    };
    let mut x = W { t: vec![], r, w, di };
    if *strict {
        x.kw("strict")
    }
    x.kw(if di { "digraph" } else { "graph" });
    x.id(id);
    x.body(stmts);
    x.t
}

/// May two tokens stand next to each other?
pub fn glues(a: &str, b: &str) -> bool {
    let x = a.chars().last().unwrap();
    let first = a.chars().next().unwrap();
    let y = b.chars().next().unwrap();
    let wordlike = |c: char| c.is_ascii_alphanumeric() || c == '_' || (c as u32) >= 128;
    let numeral = !['"', '<'].contains(&first) && (first.is_ascii_digit() || first == '.' || (first == '-' && a.len() > 1 && !a.starts_with("--") && !a.starts_with("->")));
    if ['"', '<'].contains(&first) {
        return false;
    }
    // a letter ends a numeral, another digit or a dot does not
    if numeral {
        return y.is_ascii_digit() || (y == '.' && !a.contains('.')) || (a.ends_with('.') && y.is_ascii_digit());
    }
    wordlike(x) && wordlike(y)
}

const COMMENT_BITS: [&str; 24] = [
    "x", " ", "*", "**", "/", "//", "/*", "\"", "'", "{", "}", "[", "]", ";", "->", "--", "<", ">", "#", "graph", "é",
    "日", "\\", "=",
];

pub fn line_comment(r: &mut Rng) -> String {
    format!("{}{}", if r.pct(50) { "//" } else { "#" }, repeat_pick(r, &COMMENT_BITS, 10))
}
pub fn block_comment(r: &mut Rng) -> String {
    let mut t = repeat_pick(r, &COMMENT_BITS, 10);
    if r.pct(20) {
        t.push('\n');
        t.push_str(&repeat_pick(r, &COMMENT_BITS, 4));
    }
    if r.pct(5) {
        t.push_str("\r\n");
    }
    format!("/*{}*/", t.replace("*/", "* "))
}

/// text between two tokens; "wild" in percent decides how odd it is
pub fn gap(r: &mut Rng, wild: usize, needed: bool) -> String {
    loop {
        let g = if !r.pct(wild) {
            if needed || r.pct(60) {
                " ".to_string()
            } else {
                String::new()
            }
        } else {
            let k = r.range(1, 3);
            (0..k)
                .map(|_| match r.below(12) {
                    0..=2 => " ".to_string(),
                    3 => "\n".to_string(),
                    4 => "\t".to_string(),
                    5 => "\r\n".to_string(),
                    6 | 7 => block_comment(r),
                    8 | 9 => format!("{}\n", line_comment(r)),
                    10 => format!("{}\r\n", line_comment(r)),
                    _ => String::new(),
                })
                .collect()
        };
        if !(needed && g.is_empty()) {
            return g;
        }
    }
}

/// Tokens to text. At the end a line comment may stop without a line end.
pub fn join(t: &[String], r: &mut Rng, wild: usize) -> String {
    let mut out = String::new();
    if r.pct(wild) {
        out.push_str(&gap(r, wild, false))
    }
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            let needed = glues(&t[i - 1], x);
            out.push_str(&gap(r, wild, needed))
        }
        out.push_str(x)
    }
    if r.pct(wild) {
        out.push_str(&gap(r, wild, false));
        if r.pct(30) {
            out.push_str(&line_comment(r))
        }
    }
    out
}

// ---- texts that are not documents ----

const SOUP: [&str; 40] = [
    "graph", "digraph", "strict", "subgraph", "node", "edge", "{", "}", "[", "]", "=", ";", ",", ":", "--", "->", "a",
    "b", "n", "ne", "1", "-1.5", "\"q\"", "<h>", "<", ">", "\"", "/*", "*/", "//", "#", "+", "-", ".", "\\", "!", "é", "{}",
    "{", "}",
];
const STRAY: [&str; 34] = [
    "\"", "<", ">", "{", "}", "[", "]", "=", ";", ",", ":", "-", "--", "->", "/", "/*", "*/", "//", "#", "+", ".", "\\", "!",
    "(", ")", "@", "%", "&", "'", "\n", "a", "1", "\u{0}", "\u{7f}",
];

/// A valid document, as tokens.
fn valid(r: &mut Rng) -> Vec<String> {
    let p = match r.below(3) {
        0 => Profile { depth: 3, stmts: 4, attrs: 3, verts: 3, long: 5, ..Profile::structure() },
        1 => Profile { long: 12, ..Profile::ids() },
        _ => Profile { depth: 2, stmts: 3, attrs: 2, verts: 3, long: 6, ..Profile::mixed() },
    };
    let g = graph(r, &p);
    let w = Writing::random(r);
    tokens(&g, r, w)
}

/// Text near to a document: mostly not one any more.
pub fn broken(r: &mut Rng) -> String {
    let wild = *r.pick(&[0, 0, 10, 40]);
    match r.below(16) {
        // tokens left out, doubled, swapped, replaced, put in
        0..=5 => {
            let mut t = valid(r);
            for _ in 0..r.range(1, 2) {
                let k = r.below(t.len());
                match r.below(6) {
                    0 => {
                        t.remove(k);
                    }
                    1 => {
                        let x = t[k].clone();
                        t.insert(k, x)
                    }
                    2 => {
                        let m = (k + 1) % t.len();
                        t.swap(k, m)
                    }
                    3 => t[k] = r.pick(&SOUP).to_string(),
                    _ => t.insert(k, r.pick(&SOUP).to_string()),
                }
                if t.is_empty() {
                    t.push("graph".into())
                }
            }
            join(&t, r, wild)
        }
        // characters left out, put in, replaced
        6..=8 => {
            let t = valid(r);
            let mut c: Vec<char> = join(&t, r, wild).chars().collect();
            for _ in 0..r.range(1, 2) {
                let k = r.below(c.len());
                let x: Vec<char> = r.pick(&STRAY).chars().collect();
                match r.below(3) {
                    0 => {
                        c.remove(k);
                        if c.is_empty() {
                            c.push('g')
                        }
                    }
                    1 => {
                        c.splice(k..k, x);
                    }
                    _ => {
                        c.splice(k..k + 1, x);
                    }
                }
            }
            c.into_iter().collect()
        }
        // cut off
        9 => {
            let t = valid(r);
            let c: Vec<char> = join(&t, r, wild).chars().collect();
            let k = r.below(c.len());
            c[..k].iter().collect()
        }
        10 => {
            let mut t = valid(r);
            let k = r.below(t.len());
            t.truncate(k);
            join(&t, r, wild)
        }
        // something behind or in front
        11 => {
            let mut t = valid(r);
            for _ in 0..r.range(1, 3) {
                t.push(r.pick(&SOUP).to_string())
            }
            join(&t, r, wild)
        }
        12 => {
            let mut t = valid(r);
            if r.pct(70) {
                t.extend(valid(r))
            } else {
                t.insert(0, r.pick(&SOUP).to_string())
            }
            join(&t, r, wild)
        }
        // soup
        13 => {
            let mut t: Vec<String> = if r.pct(70) { vec!["graph".into(), "{".into()] } else { vec![] };
            for _ in 0..r.size(30) {
                t.push(r.pick(&SOUP).to_string())
            }
            join(&t, r, wild)
        }
        14 => {
            let xs: &[&str] = if r.pct(50) { &STRAY } else { &QCHARS };
            repeat_pick(r, xs, 30)
        }
        _ => nested(r),
    }
}

/// Nesting that goes wrong in the depth, or does not end.
fn nested(r: &mut Rng) -> String {
    let open = *r.pick(&["{", "a--{", "subgraph{", "{a;", "subgraph s{", "{{}", "a--b--{", "{x=y;", "a--{}--{", "{}--{", "Subgraph{a[b=c];", "{a[b=c]"]);
    let wrong = *r.pick(&["", "=", "a--", "[", "a[b=]", "a:", "a=", "\"", "<", "->", "a[b", "/*", "]", ",", "a[b=c", "subgraph", "a--b[c=d", "a;;", "$"]);
    let close = *r.pick(&["}", "};", "}--b", "} ", ""]);
    let k = r.range(2, 64);
    let m = if r.pct(70) { k } else { r.below(k + 2) };
    format!("{}{{{}{}{}{}", r.pick(&["graph", "strict graph", "graph g"]), open.repeat(k), wrong, close.repeat(m), r.pick(&["}", "", "}}"]))
}
