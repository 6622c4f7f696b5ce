//! Commands of the harness. Every command reads or writes line-wise JSON.
use graphviz_rust::parse;
use graphviz_rust::printer::{DotPrinter, PrinterContext};
use gvh::conv::*;
use gvh::gen::{self, Profile, Writing};
use gvh::json::*;
use gvh::print::{Call, LifeStyle};
use gvh::rng::Rng;
use std::borrow::Cow;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, LazyLock, Mutex};
use std::time::Instant;

// ---- watching a call ----

/// the call a thread is in
type Slot = Arc<Mutex<Option<(String, Instant)>>>;
static CURRENT: Mutex<Vec<Slot>> = Mutex::new(vec![]);
thread_local! {
    static SLOT: (usize, Slot) = {
        let mut c = CURRENT.lock().unwrap();
        let s = Slot::default();
        c.push(s.clone());
        (c.len() - 1, s)
    };
}

/// A call that takes longer than this many seconds ends the process with status 3.
const PATIENCE: u64 = 20;

fn watchdog() {
    let path = std::env::var("GVH_INFLIGHT").ok();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        for slot in CURRENT.lock().unwrap().iter() {
            if let Some((what, t)) = &*slot.lock().unwrap() {
                if t.elapsed().as_secs() >= PATIENCE {
                    if let Some(p) = &path {
                        let _ = std::fs::write(p, what);
                    }
                    eprintln!("call does not return: {:?}", what);
                    std::process::exit(3);
                }
            }
        }
    });
}

/// when looking for a call that kills the process
static TRACED: LazyLock<bool> = LazyLock::new(|| std::env::var("GVH_TRACE").is_ok());

fn watched<T>(what: &str, f: impl FnOnce() -> T) -> std::thread::Result<T> {
    let (id, slot) = SLOT.with(|s| s.clone());
    *slot.lock().unwrap() = Some((what.to_string(), Instant::now()));
    if *TRACED {
        if let Ok(p) = std::env::var("GVH_INFLIGHT") {
            let _ = std::fs::write(format!("{}.{}", p, id), what);
        }
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    *slot.lock().unwrap() = None;
    r
}

/// (outcome, events) of one call of parse
fn real_parse(doc: &str) -> (&'static str, Vec<J>) {
    match watched(doc, || parse(doc)) {
        Err(_) => ("panic", vec![]),
        Ok(Err(m)) if m.is_empty() => ("emptyerr", vec![]),
        Ok(Err(_)) => ("err", vec![]),
        Ok(Ok(g)) => ("ok", events(&g)),
    }
}

fn read_record(doc: &str) -> J {
    let (res, ev) = real_parse(doc);
    o(vec![("doc", codes(doc)), ("res", s(res)), ("ev", J::A(ev))])
}

struct Out(std::io::BufWriter<std::fs::File>);
impl Out {
    fn new(p: &str) -> Out {
        Out(std::io::BufWriter::new(std::fs::File::create(p).unwrap()))
    }
    fn line(&mut self, j: &J) {
        self.0.write_all(j.dump().as_bytes()).unwrap();
        self.0.write_all(b"\n").unwrap();
    }
}

// ---- reading ----

/// gen-read PROFILE SEED N OUT: random documents, parsed by the real parser
fn gen_read(a: &[String]) {
    let seed: u64 = a[1].parse().unwrap();
    let n: usize = a[2].parse().unwrap();
    let maxlen: usize = a.get(4).map(|x| x.parse().unwrap()).unwrap_or(1500);
    let mut out = Out::new(&a[3]);
    let mut done = 0;
    let mut i = 0u64;
    while done < n {
        i += 1;
        let mut r = Rng::new(seed, i * 7 + 1);
        let (p, wild) = match a[0].as_str() {
            "structure" => (Profile::structure(), 5),
            "ids" => (Profile::ids(), 5),
            "gaps" => (Profile { depth: 2, stmts: 5, ..Profile::mixed() }, 75),
            _ => (Profile::mixed(), *r.pick(&[0, 10, 50])),
        };
        let g = gen::graph(&mut r, &p);
        let w = Writing::random(&mut r);
        let t = gen::tokens(&g, &mut r, w);
        let doc = gen::join(&t, &mut r, wild);
        if doc.chars().count() > maxlen {
            continue;
        }
        out.line(&read_record(&doc));
        done += 1;
    }
}

/// gen-mut SEED N OUT [maxlen]: texts that are documents no more
fn gen_mut(a: &[String]) {
    let seed: u64 = a[0].parse().unwrap();
    let count: usize = a[1].parse().unwrap();
    let maxlen: usize = a.get(3).map(|x| x.parse().unwrap()).unwrap_or(400);
    let mut out = Out::new(&a[2]);
    let mut done = 0;
    let mut i = 0u64;
    while done < count {
        i += 1;
        let mut r = Rng::new(seed, i * 13 + 7);
        let doc = gen::broken(&mut r);
        if doc.chars().count() > maxlen {
            continue;
        }
        out.line(&read_record(&doc));
        done += 1;
    }
}

/// A text nested so deep: (opening, middle, closing), each but the middle repeated.
const DEEP: [(&str, &str, &str); 12] = [
    ("{", "", "}"),
    ("subgraph s{", "a", "};"),
    ("a->{", "a", "}"),
    ("{", "a", "}->b"),
    ("a -> SUBGRAPH { n [x=y] ", "b", "} -> c [u=v];"),
    ("{x=y;", "{}->{}", "}"),
    ("<", "t", ">"),
    ("{", "", ""),
    ("{", "a->", "}"),
    ("a->{", "a b=", "}"),
    ("a->b->{", "]", "}"),
    ("<", "", ""),
];
fn deep_text(shape: usize, k: usize) -> String {
    let (a, m, b) = DEEP[shape];
    let t = format!("{}{}{}", a.repeat(k), m, b.repeat(k));
    if a == "<" {
        format!("digraph {{ n [x={}] }}", t)
    } else {
        format!("digraph {{{}}}", t)
    }
}
/// Long ones: (beginning, repeated part, end)
const LONG: [(&str, &str, &str); 18] = [
    ("graph{", "a;", "}"),
    ("graph{a", "--b", "}"),
    ("strict digraph{a", "->b:c:n", "[k=v]}"),
    ("graph{a[", "k=v,", "]}"),
    ("graph{a--b", "[k=v]", "}"),
    ("graph{node[", "k=\"v\";", "]}"),
    ("graph{ \"", "é\\\"\n", "\" }"),
    ("graph{", "/* \" */", "}"),
    ("graph{", "#}\n", "}"),
    ("graph{", "a--{b};", "}"),
    ("digraph{a", "->{b}", "[x=y]}"),
    ("graph{ a[b=<", "<i>x</i>", ">]}"),
    ("graph ", "x9", "{}"),
    ("graph{a=", "1", "}"),
    ("graph{a[b=-", "1", ".5]}"),
    ("graph{", "{}", "}"),
    ("graph{", "x=y", "}"),
    ("graph{a", " ", "\r\n}"),
];
/// on a stack of so many KiB; a graph is handed out and never taken apart here
fn on_stack<T: Send>(kib: usize, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|sc| std::thread::Builder::new().stack_size(kib << 10).spawn_scoped(sc, f).unwrap().join().unwrap())
}

/// gen-deep DEPTH OUT [any]: deeply nested texts, first with a stack that is big enough, then
/// with any: the call may fail then, but it comes back.
fn gen_deep(a: &[String]) {
    let depth: usize = a[0].parse().unwrap();
    let mut out = Out::new(&a[1]);
    for shape in 0..DEEP.len() {
        for k in [depth / 3, depth] {
            let doc = deep_text(shape, k);
            let rec = on_stack(256 << 10, || read_record(&doc));
            out.line(&rec);
        }
    }
    for (x, y, z) in LONG {
        for k in [depth, 7 * depth] {
            out.line(&read_record(&format!("{}{}{}", x, y.repeat(k), z)));
        }
    }
    if a.len() < 3 {
        return;
    }
    let mut n = 0;
    for kib in [512, 2048, 8192] {
        for shape in 0..DEEP.len() {
            for k in [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 18, 20, 25, 30, 50, 200].map(|k| k * kib / 20) {
                let doc = deep_text(shape, k);
                let what = format!("{} times {:?} with a stack of {} KiB", k, DEEP[shape], kib);
                let r = on_stack(kib, || watched(&what, || parse(&doc)));
                n += 1;
                match r {
                    // now and then all of it is looked at
                    Ok(Ok(g)) => {
                        if n % 29 == 0 && k <= 2 * depth {
                            let ev = on_stack(1 << 20, move || events(&g));
                            out.line(&o(vec![("doc", codes(&doc)), ("res", s("ok")), ("ev", J::A(ev))]))
                        } else {
                            on_stack(1 << 20, move || drop(g))
                        }
                    }
                    Ok(Err(m)) if m.is_empty() => out.line(&o(vec![("doc", codes(&doc)), ("res", s("emptyerr")), ("ev", J::A(vec![]))])),
                    Ok(Err(_)) => {}
                    Err(_) => out.line(&o(vec![("doc", codes(&doc)), ("res", s("panic")), ("ev", J::A(vec![]))])),
                }
            }
        }
    }
    eprintln!("{} calls", n);
}

// ---- printing ----

/// gen-session KIND SEED N OUT: random lives of printer contexts
fn gen_session(a: &[String]) {
    let seed: u64 = a[1].parse().unwrap();
    let count: usize = a[2].parse().unwrap();
    let mut out = Out::new(&a[3]);
    let style = match a[0].as_str() {
        "layout" => LifeStyle { calls: 6, graphs: 2, printers: 0, elems: 10 },
        "printers" => LifeStyle { calls: 9, graphs: 2, printers: 30, elems: 20 },
        _ => LifeStyle { calls: 14, graphs: 3, printers: 4, elems: 35 },
    };
    let mut done = 0;
    let mut i = 0u64;
    while done < count {
        i += 1;
        let mut r = Rng::new(seed, i * 5 + 3);
        let (made, calls) = gvh::print::life(&mut r, &style);
        let j = run_life(&made, &calls, r.pct(50));
        if j.len() > 60000 {
            continue;
        }
        out.0.write_all(j.as_bytes()).unwrap();
        out.0.write_all(b"\n").unwrap();
        done += 1;
    }
}

/// gen-scale SEED TOP OUT: edges whose several-line form is about as long as the inline size,
/// for sizes of every magnitude up to TOP; also long separators and wide steps
fn gen_scale(a: &[String]) {
    use dot_structures::*;
    let seed: u64 = a[0].parse().unwrap();
    let top: usize = a[1].parse().unwrap();
    let mut out = Out::new(&a[2]);
    let mut sizes: Vec<usize> = vec![];
    for b in (5..20).map(|k| 1usize << k).chain([100, 1000, 10000, 100000, 1000000, 80, 90, 120, 500, 2000, 5000, 20000, 50000, 70000, 90000, 99999]) {
        if b <= top {
            sizes.push(b)
        }
    }
    let plain = |t: String| Id::Plain(t);
    for (k, &size) in sizes.iter().enumerate() {
        for shape in 0..4u64 {
            let mut r = Rng::new(seed, k as u64 * 4 + shape);
            // an edge with filling of the length given
            let unit = *r.pick(&["x", "é", "日"]);
            let edge = |fill: usize| -> Edge {
                let word = |f: usize| format!("{}{}", unit.repeat(f / unit.len()), "y".repeat(f % unit.len()));
                let node = |t: String| Vertex::N(NodeId(plain(t), None));
                match shape {
                    0 => Edge {
                        ty: EdgeTy::Pair(node("a".into()), node("b".into())),
                        attributes: vec![
                            Attribute(plain("k".into()), plain("v".into())),
                            Attribute(plain("l".into()), Id::Escaped(format!("\"{}\"", word(fill)))),
                        ],
                    },
                    1 => Edge { ty: EdgeTy::Pair(node(format!("a{}", word(fill))), node("b".into())), attributes: vec![Attribute(plain("k".into()), plain("v".into())); 2] },
                    2 => {
                        let f = fill / 3;
                        let ns = vec![node(format!("a{}", word(f))), node(format!("b{}", word(f))), node(format!("c{}", word(fill - 2 * f)))];
                        Edge { ty: EdgeTy::Chain(ns), attributes: vec![Attribute(plain("k".into()), plain("v".into())); 3] }
                    }
                    _ => {
                        let inner = Stmt::Node(Node { id: NodeId(plain(format!("n{}", word(fill))), None), attributes: vec![] });
                        Edge { ty: EdgeTy::Pair(node("a".into()), Vertex::S(Subgraph { id: plain("s".into()), stmts: vec![inner] })), attributes: vec![] }
                    }
                }
            };
            let mut set = vec![Call::Sep(r.pick(&["\n", "\r\n", "\t", "é\n"]).to_string()), Call::Step(*r.pick(&[0, 1, 2, 4]))];
            if r.pct(80) {
                set.push(Call::Multi)
            }
            if r.pct(30) {
                set.push(Call::NoComma)
            }
            let len = |e: &Edge| {
                let mut c = PrinterContext::default();
                for x in &set {
                    x.run(&mut c, false);
                }
                c.with_inline_size(0);
                gvh::quiet(|| e.print(&mut c).len()).unwrap_or(0)
            };
            let bare = len(&edge(0));
            if bare > size {
                continue;
            }
            let e = edge(size - bare);
            let inside = gen::make_graph(r.pct(50), false, Id::Anonymous("x".into()), vec![Stmt::Edge(e.clone())]);
            let mut calls = set.clone();
            for d in [0usize, 1, 2] {
                calls.push(Call::Size(size + d - 1));
                calls.push(Call::Elem(gvh::print::Elem::Edge(e.clone())));
                if d != 1 {
                    calls.push(Call::Graph(inside.clone()));
                }
            }
            out.0.write_all(run_life(&None, &calls, false).as_bytes()).unwrap();
            out.0.write_all(b"\n").unwrap();
        }
    }
    // long separators, wide steps
    for (k, sep) in [" ".repeat(300), "\n".repeat(70), format!("\n{}", "\t".repeat(1000)), "é; ".repeat(90)].iter().enumerate() {
        for step in [255, 256, 257, 1000, 5000] {
            let mut r = Rng::new(seed, 7000 + k as u64 * 10 + step as u64);
            let p = Profile { depth: 3, stmts: 3, attrs: 3, verts: 2, long: 8, ..Profile::structure() };
            let g = gen::graph(&mut r, &p);
            let calls = vec![Call::Sep(sep.clone()), Call::Multi, Call::Step(step), Call::Size(*r.pick(&[0, 90, 1000, 4000])), Call::Graph(g)];
            let j = run_life(&None, &calls, true);
            if j.len() < 600000 {
                out.0.write_all(j.as_bytes()).unwrap();
                out.0.write_all(b"\n").unwrap();
            }
        }
    }
}

fn made_json(made: &Option<J>) -> J {
    let d = o(vec![("ls", codes("\n")), ("step", n(2)), ("size", n(90)), ("semi", J::B(false))]);
    let m = made.as_ref().unwrap_or(&d);
    o(vec![
        ("made", J::B(made.is_some())),
        ("semi", m.get("semi").clone()),
        ("step", m.get("step").clone()),
        ("ls", m.get("ls").clone()),
        ("size", m.get("size").clone()),
    ])
}

/// the settings in force and the kind of the last graph
struct Now {
    set: J,
    di: bool,
}
impl Now {
    fn new(made: &Option<J>) -> Now {
        let m = made_json(made);
        let set = o(vec![
            ("ls", m.get("ls").clone()),
            ("step", m.get("step").clone()),
            ("size", m.get("size").clone()),
            ("semi", m.get("semi").clone()),
            ("multi", J::B(false)),
            ("comma", J::B(true)),
            ("fm", J::A(vec![])),
        ]);
        Now { set, di: false }
    }
    fn put(&mut self, k: &str, v: J) {
        if let J::O(f) = &mut self.set {
            for x in f.iter_mut() {
                if x.0 == k {
                    x.1 = v;
                    return;
                }
            }
        }
    }
    fn note(&mut self, c: &Call) {
        match c {
            Call::Inline => self.put("ls", codes("")),
            Call::Sep(l) => self.put("ls", codes(l)),
            Call::Semi => self.put("semi", J::B(true)),
            Call::Multi => self.put("multi", J::B(true)),
            Call::NoComma => self.put("comma", J::B(false)),
            Call::Step(k) => self.put("step", n(*k)),
            Call::Size(k) => self.put("size", n(*k)),
            Call::Printer(i, t) => {
                let mut fm: Vec<J> = self.set.get("fm").arr().to_vec();
                fm.retain(|f| f.get("id") != &id_json(i));
                fm.push(o(vec![("id", id_json(i)), ("tag", codes(t))]));
                self.put("fm", J::A(fm))
            }
            Call::Graph(g) => self.di = matches!(g, dot_structures::Graph::DiGraph { .. }),
            Call::Elem(_) => {}
        }
    }
    /// a fresh context with these settings, for an element also with the edge operator
    fn context(&self, by_new: bool, for_elem: bool) -> PrinterContext {
        fresh_context(&self.set, self.di && for_elem, by_new)
    }
}
fn fresh_context(set: &J, di: bool, by_new: bool) -> PrinterContext {
    let mut c = gvh::print::context(set, by_new);
    if di {
        let _ = graphviz_rust::print(gen::make_graph(true, false, dot_structures::Id::Plain("d".into()), vec![]), &mut c);
    }
    c
}

/// replay-session CFG VECTORS REPORT: histories of calls, each print against a fresh context
fn replay_session(a: &[String]) {
    let cfg = J::parse(&std::fs::read_to_string(&a[0]).unwrap());
    let calls: Vec<Call> = cfg.get("calls").arr().iter().map(Call::from).collect();
    for_lines(&a[1], &a[2], |i, v, rep| {
        let mut ctx = PrinterContext::default();
        let hist = v.arr();
        for (k, h) in hist.iter().enumerate() {
            let c = &calls[h.get("c").int() as usize - 1];
            let got = watched("print", || c.run(&mut ctx, i % 2 == 0));
            // earlier prints were the last ones of shorter histories
            if k + 1 == hist.len() {
                let di = h.get("di").bool() && matches!(c, Call::Elem(_));
                let want = watched("print", || c.run(&mut fresh_context(h.get("set"), di, false), i % 2 == 1));
                let (got, want) = (got.ok().flatten(), want.ok().flatten());
                rep.check(got.is_some() && got == want, || {
                    let path: Vec<J> = hist.iter().map(|h| calls[h.get("c").int() as usize - 1].json()).collect();
                    o(vec![("calls", J::A(path)), ("settings", h.get("set").clone()), ("fresh context", s(&want.unwrap_or_default())), ("this context", s(&got.unwrap_or("<panic>".into())))])
                });
            }
        }
    })
    .finish()
}

fn run_life(made: &Option<J>, calls: &[Call], flip: bool) -> String {
    let mut ctx = match made {
        None => PrinterContext::default(),
        Some(m) => PrinterContext::new(
            m.get("semi").bool(),
            m.get("step").int() as usize,
            m.get("ls").text(),
            m.get("size").int() as usize,
        ),
    };
    let mut ops = vec![];
    let mut now = Now::new(made);
    for c in calls {
        let mut j = match c.json() {
            J::O(f) => f,
            _ => unreachable!(),
        };
        if matches!(c, Call::Graph(_) | Call::Elem(_)) {
            let fresh = watched("print", || c.run(&mut now.context(made.is_some(), matches!(c, Call::Elem(_))), !flip));
            j.push(("set".to_string(), now.set.clone()));
            j.push(("di".to_string(), J::B(now.di)));
            j.push(("fresh".to_string(), codes(&fresh.ok().flatten().unwrap_or_default())));
        }
        now.note(c);
        let (res, text) = match watched("print", || c.run(&mut ctx, flip)) {
            Ok(t) => ("ok", t.unwrap_or_default()),
            Err(_) => ("panic", String::new()),
        };
        j.push(("res".to_string(), s(res)));
        j.push(("text".to_string(), codes(&text)));
        ops.push(J::O(j));
        if res == "panic" {
            break;
        }
    }
    o(vec![("new", made_json(made)), ("ops", J::A(ops))]).dump()
}

/// gen-print SEED N OUT: graphs printed under random settings, the text as a document
fn gen_print(a: &[String]) {
    let seed: u64 = a[0].parse().unwrap();
    let count: usize = a[1].parse().unwrap();
    let mut out = Out::new(&a[2]);
    let mut done = 0;
    let mut i = 0u64;
    while done < count {
        i += 1;
        let mut r = Rng::new(seed, i * 3 + 2);
        let p = match r.below(3) {
            0 => Profile::structure(),
            1 => Profile::ids(),
            _ => Profile::mixed(),
        };
        let g = gen::graph(&mut r, &p);
        let set = gvh::print::settings(&mut r);
        let mut ctx = gvh::print::context(&set, r.pct(50));
        let (res, text) = match watched("print", || graphviz_rust::print(g.clone(), &mut ctx)) {
            Ok(t) => ("ok", t),
            Err(_) => ("panic", String::new()),
        };
        if text.chars().count() > 2500 {
            continue;
        }
        out.line(&o(vec![("doc", codes(&text)), ("res", s(res)), ("ev", J::A(events(&g))), ("set", set)]));
        done += 1;
    }
}

/// gen-print-big DEPTH OUT: deep and long graphs printed
fn gen_print_big(a: &[String]) {
    let depth: usize = a[0].parse().unwrap();
    let mut out = Out::new(&a[1]);
    let mut docs: Vec<String> = (0..5).flat_map(|i| [deep_text(i, depth / 3), deep_text(i, depth)]).collect();
    docs.extend(LONG.iter().map(|(x, y, z)| format!("{}{}{}", x, y.repeat(4 * depth), z)));
    for (i, doc) in docs.iter().enumerate() {
        for k in 0..3 {
            let mut r = Rng::new(i as u64, k);
            // a step of two means a text that grows with the square of the depth
            let set = gvh::print::big_settings(&mut r);
            let rec = on_stack(256 << 10, || {
                let g = match watched(doc, || parse(doc)) {
                    Ok(Ok(g)) => g,
                    _ => return None,
                };
                let mut ctx = gvh::print::context(&set, false);
                let (res, text) = match watched(&format!("print {}", doc.chars().take(60).collect::<String>()), || g.print(&mut ctx)) {
                    Ok(t) => ("ok", t),
                    Err(_) => ("panic", String::new()),
                };
                Some(o(vec![("doc", codes(&text)), ("res", s(res)), ("ev", J::A(events(&g))), ("set", set)]))
            });
            if let Some(rec) = rec {
                out.line(&rec)
            }
        }
    }
}

/// save and load g some times
fn trip_ops(g: &dot_structures::Graph, r: &mut Rng, rounds: usize) -> Vec<J> {
    let sets = [gvh::print::settings(r), gvh::print::settings(r)];
    let mut mem = g.clone();
    let mut ops = vec![];
    for _ in 0..rounds {
        let set = r.pick(&sets);
        let text = match watched("print", || {
            let mut ctx = gvh::print::context(set, r.pct(50));
            graphviz_rust::print(mem.clone(), &mut ctx)
        }) {
            Ok(t) => t,
            Err(_) => {
                ops.push(o(vec![("op", s("save")), ("res", s("panic")), ("set", set.clone()), ("text", codes(""))]));
                return ops;
            }
        };
        ops.push(o(vec![("op", s("save")), ("res", s("ok")), ("set", set.clone()), ("text", codes(&text))]));
        match watched(&text, || parse(&text)) {
            Ok(Ok(h)) => {
                ops.push(o(vec![
                    ("op", s("load")),
                    ("res", s("ok")),
                    ("ev", J::A(events(&h))),
                    ("eq", J::B(strip(&h) == strip(&mem))),
                ]));
                mem = h;
            }
            x => {
                let res = if x.is_err() { "panic" } else { "err" };
                ops.push(o(vec![("op", s("load")), ("res", s(res)), ("ev", J::A(vec![])), ("eq", J::B(false))]));
                return ops;
            }
        }
    }
    ops
}

/// gen-trip SEED N OUT: documents and graphs through save and load
fn gen_trip(a: &[String]) {
    let seed: u64 = a[0].parse().unwrap();
    let count: usize = a[1].parse().unwrap();
    let mut out = Out::new(&a[2]);
    let mut done = 0;
    let mut i = 0u64;
    while done < count {
        i += 1;
        let mut r = Rng::new(seed, i * 11 + 5);
        let p = match r.below(3) {
            0 => Profile::structure(),
            1 => Profile::ids(),
            _ => Profile::mixed(),
        };
        let made = gen::graph(&mut r, &p);
        // half of the graphs come out of the parser
        let g = if r.pct(50) {
            let w = Writing::random(&mut r);
            let t = gen::tokens(&made, &mut r, w);
            let doc = gen::join(&t, &mut r, 10);
            match watched(&doc, || parse(&doc)) {
                Ok(Ok(g)) => g,
                _ => continue,
            }
        } else {
            made
        };
        let rounds = r.range(2, 5);
        let ops = trip_ops(&g, &mut r, rounds);
        let line = o(vec![("ev", J::A(events(&g))), ("ops", J::A(ops))]);
        let text = line.dump();
        if text.len() > 60000 {
            continue;
        }
        out.line(&line);
        done += 1;
    }
}

/// trip-docs VECTORS REPORT: accepted texts through load, save, load, save
fn trip_docs(a: &[String]) {
    for_lines(&a[0], &a[1], |_, v, rep| {
        if v.get("v").str() != "acc" {
            return;
        }
        let doc = v.get("doc").text();
        // what is not even parsed is another property
        if let Ok(Ok(g)) = watched(&doc, || parse(&doc)) {
            let mut r = Rng::new(hash(&doc), 1);
            let set = gvh::print::settings(&mut r);
            let save = |g: &dot_structures::Graph| {
                let mut ctx = gvh::print::context(&set, false);
                watched("print", || graphviz_rust::print(g.clone(), &mut ctx)).ok()
            };
            let t1 = save(&g);
            let h = t1.as_ref().and_then(|t| watched(t, || parse(t)).ok().and_then(|x| x.ok()));
            let t2 = h.as_ref().and_then(&save);
            let ok = t1.is_some() && h.as_ref().map(strip) == Some(strip(&g)) && t1 == t2;
            rep.check(ok, || {
                o(vec![
                    ("doc", s(&doc)),
                    ("settings", set.clone()),
                    ("graph", J::A(events(&g))),
                    ("saved", s(&t1.unwrap_or_default())),
                    ("loaded", J::A(h.as_ref().map(events).unwrap_or_default())),
                    ("saved again", s(&t2.unwrap_or_default())),
                ])
            });
        }
    })
    .finish()
}

fn hash(t: &str) -> u64 {
    t.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// replay-print MODE VECTORS REPORT: graph, settings and the text the specification gives
fn replay_print(a: &[String]) {
    let layout = a[0] == "layout";
    // texts other than expected, for the reader
    let denote = a[0] == "denote";
    let differ = Mutex::new(Vec::<(u64, J)>::new());
    let trip = a[0] == "trip";
    for_lines(&a[1], &a[2], |i, v, rep| {
        let g = graph_from(v.get("g"));
        let set = v.get("set");
        let want = v.get("text").text();
        let mut texts = vec![];
        for by_new in [false, true] {
            let r = watched("print", || {
                let mut ctx = gvh::print::context(set, by_new);
                graphviz_rust::print(g.clone(), &mut ctx)
            });
            texts.push(r.unwrap_or_else(|_| "<panic>".to_string()));
        }
        if denote {
            for t in &texts {
                if t == &want {
                    rep.check(true, || J::B(true))
                } else {
                    let res = if t == "<panic>" { "panic" } else { "ok" };
                    let rec = o(vec![("doc", codes(t)), ("res", s(res)), ("ev", J::A(events(&g))), ("set", set.clone())]);
                    differ.lock().unwrap().push((i, rec))
                }
            }
        }
        if layout {
            for (t, by) in texts.iter().zip(["setters", "new"]) {
                rep.check(t == &want, || {
                    o(vec![("graph", v.get("g").clone()), ("settings", set.clone()), ("context by", s(by)), ("expected", s(&want)), ("printed", s(t))])
                });
            }
        }
        if trip {
            let t = &texts[(i % 2) as usize];
            let (ok, again) = match watched(t, || parse(t)) {
                Ok(Ok(h)) => {
                    let mut ctx = gvh::print::context(set, i % 2 == 1);
                    (strip(&h) == strip(&g), watched("print", || graphviz_rust::print(h.clone(), &mut ctx)).unwrap_or_default())
                }
                _ => (false, String::new()),
            };
            rep.check(ok && &again == t, || {
                o(vec![("graph", v.get("g").clone()), ("settings", set.clone()), ("printed", s(t)), ("parsed back equal", J::B(ok)), ("printed again", s(&again))])
            });
        }
    })
    .finish();
    if denote {
        let mut d = differ.into_inner().unwrap();
        d.sort_by_key(|x| x.0);
        let mut out = Out::new(&a[3]);
        for (_, j) in d.iter().take(4000) {
            out.line(j)
        }
    }
}

// ---- replaying what the specification says ----

struct Report {
    path: String,
    cases: u64,
    bad: Vec<J>,
    extra: Vec<(String, J)>,
}
impl Report {
    fn new(path: &str) -> Report {
        Report { path: path.to_string(), cases: 0, bad: vec![], extra: vec![] }
    }
    fn check(&mut self, ok: bool, detail: impl FnOnce() -> J) {
        self.cases += 1;
        if !ok && self.bad.len() < 20 {
            self.bad.push(detail())
        }
    }
    fn finish(self) {
        let mut f = vec![("cases", J::N(self.cases as i64)), ("bad", J::A(self.bad))];
        let extra = self.extra;
        for (k, v) in &extra {
            f.push((k.as_str(), v.clone()))
        }
        std::fs::write(&self.path, o(f).dump()).unwrap();
    }
}

fn check_doc(rep: &mut Report, doc: &str, verdict: &str, want: &J) {
    let (res, ev) = real_parse(doc);
    let ok = match verdict {
        "acc" => res == "ok" && &J::A(ev.clone()) == want,
        _ => res == "err",
    };
    rep.check(ok, || {
        o(vec![
            ("doc", s(doc)),
            ("specification", s(verdict)),
            ("expected", want.clone()),
            ("result", s(res)),
            ("events", J::A(ev)),
        ])
    });
}

/// every line of a file, handled by all cores; reports are merged
fn for_lines(p: &str, report: &str, f: impl Fn(u64, J, &mut Report) + Sync) -> Report {
    let text = std::fs::read_to_string(p).unwrap();
    let lines: Vec<&str> = text.lines().filter(|l| !l.is_empty()).collect();
    let workers = threads();
    let mut all = Report::new(report);
    let parts: Vec<Report> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..workers)
            .map(|w| {
                let (lines, f) = (&lines, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut rep = Report::new("");
                        for (i, l) in lines.iter().enumerate().skip(w).step_by(workers) {
                            // TLC writes the JSON text as a string
                            let v = match J::parse(l) {
                                J::S(t) => J::parse(&t),
                                v => v,
                            };
                            f(i as u64, v, &mut rep)
                        }
                        rep
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for r in parts {
        all.cases += r.cases;
        all.bad.extend(r.bad);
    }
    all.bad.truncate(20);
    all
}

fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
}

/// replay-docs VECTORS REPORT: texts with verdict and events
fn replay_docs(a: &[String]) {
    for_lines(&a[0], &a[1], |_, v, rep| check_doc(rep, &v.get("doc").text(), v.get("v").str(), v.get("ev"))).finish()
}

// ---- documents of any length ----

/// What the specification says a text x y..y z with so many copies of y denotes, see PumpEnum:
/// all but the events of the loop stay as they are in the reading of base copies.
fn pumped(v: &J, copies: usize) -> Vec<Cow<'_, J>> {
    let base = v.get("n").int() as usize;
    let (h1, h2) = (v.get("h1").int() as usize, v.get("h2").int() as usize);
    let ev = v.get("ev").arr();
    let mut out = Vec::with_capacity(ev.len() + (h2 - h1) * copies);
    out.extend(ev[..h1].iter().map(Cow::Borrowed));
    for _ in 0..copies + 1 - base {
        out.extend(ev[h1..h2].iter().map(Cow::Borrowed))
    }
    let edge = v.get("edge").int() as usize;
    let dn = v.get("dn").int() * (copies as i64 - base as i64);
    let grow = v.get("grow").int() as usize;
    let id = v.get("id");
    let grown = if grow > 0 && !id.arr().is_empty() {
        let (t, y) = (id.arr(), v.get("y").arr());
        let more: Vec<J> = if copies >= base {
            let mut w = t[..grow].to_vec();
            for _ in base..copies {
                w.extend_from_slice(y)
            }
            w.extend_from_slice(&t[grow..]);
            w
        } else {
            [&t[..grow], &t[grow + y.len() * (base - copies)..]].concat()
        };
        Some(J::A(more))
    } else {
        None
    };
    for (i, e) in ev.iter().enumerate().skip(h2) {
        let mut e = e.clone();
        if let J::O(f) = &mut e {
            for (k, x) in f.iter_mut() {
                match (k.as_str(), &grown) {
                    ("n", _) if i + 1 == edge => *x = J::N(x.int() + dn),
                    ("a" | "b", Some(g)) if x.get("t") == id => {
                        *x = o(vec![("k", x.get("k").clone()), ("t", g.clone())]);
                    }
                    _ => {}
                }
            }
        }
        out.push(Cow::Owned(e))
    }
    out
}
fn same(got: &[J], want: &[Cow<'_, J>]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(g, w)| g == w.as_ref())
}
/// numbers of copies: all small ones, then those around round numbers
fn ladder(from: usize, most: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (from..=20).collect();
    let mut k = 32;
    while k <= most {
        v.extend([k - 1, k, k + 1]);
        k *= 2
    }
    let mut k = 10;
    while k <= most {
        v.extend([k, k + 1]);
        k *= 10
    }
    v.push(most);
    v.retain(|k| *k >= from && *k <= most);
    v.sort();
    v.dedup();
    v
}

/// what is wrong with the graph, or, if it is to be saved and loaded, with that
fn not_the_one(g: &dot_structures::Graph, want: &[Cow<'_, J>], trip: bool, what: &str, r: &mut Rng) -> Option<&'static str> {
    if !same(&events(g), want) {
        return Some("another graph");
    }
    if !trip {
        return None;
    }
    let set = gvh::print::big_settings(r);
    let save = |g: &dot_structures::Graph| {
        watched(what, || {
            let mut c = gvh::print::context(&set, false);
            graphviz_rust::print(g.clone(), &mut c)
        })
    };
    match save(g) {
        Err(_) => Some("a panic in print"),
        Ok(t) => match watched(what, || parse(&t)) {
            Ok(Ok(h)) if same(&events(&h), want) && save(&h).ok() == Some(t) => None,
            Ok(Ok(_)) => Some("another graph or text after save and load"),
            _ => Some("saved, but not loaded"),
        },
    }
}

/// replay-mix GROUPS REPORT CHARS SEED parse|trip SHORT: loops of the specification at the same
/// place, run through in any order: texts of up to CHARS characters that do not repeat themselves.
/// Short ones are written down with what they are said to denote.
fn replay_mix(a: &[String]) {
    let most: usize = a[2].parse().unwrap();
    let seed: u64 = a[3].parse().unwrap();
    let trip = a[4] == "trip";
    let short = std::sync::Mutex::new(Out::new(&a[5]));
    for_lines(&a[0], &a[1], |i, v, rep| {
        let (x, y, z) = (v.get("x").text(), v.get("y").text(), v.get("z").text());
        let base = v.get("n").int() as usize;
        let (h1, h2) = (v.get("h1").int() as usize, v.get("h2").int() as usize);
        let ev = v.get("ev").arr();
        let ys: Vec<(String, &[J])> = v.get("ys").arr().iter().map(|y| (y.get("y").text(), y.get("ev").arr())).collect();
        let mut r = Rng::new(seed, i * 31 + 7);
        for chars in [60, 400, 3000, 20000, most, 66000 + r.below(90000)] {
            let mut doc = format!("{}{}", x, y.repeat(base - 2));
            let mut want: Vec<Cow<J>> = ev[..h1].iter().map(Cow::Borrowed).collect();
            while doc.len() < chars {
                let (y, e) = r.pick(&ys);
                doc.push_str(y);
                want.extend(e.iter().map(Cow::Borrowed));
            }
            doc.push_str(&y);
            doc.push_str(&z);
            want.extend(ev[h2..].iter().map(Cow::Borrowed));
            let what = format!("{:?} .. {:?}, {} characters of {:?}", x, z, doc.len(), ys.iter().map(|y| &y.0).collect::<Vec<_>>());
            let bad = match watched(&what, || parse(&doc)) {
                Err(_) => Some("a panic"),
                Ok(Err(_)) => Some("rejected"),
                Ok(Ok(g)) => not_the_one(&g, &want, trip, &what, &mut r),
            };
            if chars == 60 && i % 4 == 0 && bad.is_none() {
                let ev = want.iter().map(|e| e.as_ref().clone()).collect();
                short.lock().unwrap().line(&o(vec![("doc", codes(&doc)), ("res", s("ok")), ("ev", J::A(ev))]));
            }
            rep.check(bad.is_none(), || {
                o(vec![
                    ("doc", s(&if doc.len() < 500 { doc.clone() } else { what.clone() })),
                    ("specification", s(v.get("v").str())),
                    ("result", s(bad.unwrap_or_default())),
                ])
            });
            if bad.is_some() {
                break;
            }
        }
    })
    .finish()
}

/// replay-pump VECTORS REPORT CHARS SEED parse|trip: loops of the specification, run through so
/// often that the texts have up to CHARS characters
fn replay_pump(a: &[String]) {
    let most: usize = a[2].parse().unwrap();
    let seed: u64 = a[3].parse().unwrap();
    let trip = a[4] == "trip";
    for_lines(&a[0], &a[1], |i, v, rep| {
        let (x, y, z) = (v.get("x").text(), v.get("y").text(), v.get("z").text());
        let base = v.get("n").int() as usize;
        let acc = v.get("v").str() == "acc";
        // the specification has read a longer one as well
        if acc {
            let m = v.get("m").int() as usize;
            if !same(v.get("evm").arr(), &pumped(&v, m)) {
                eprintln!("the loop of {:?} {:?} {:?} is not one", x, y, z);
                std::process::exit(4)
            }
        }
        if trip && !acc {
            return;
        }
        // y of several pieces are many
        let most = if v.get("k").int() > 1 { most / 12 } else { most };
        for k in ladder(base - 1, (most / y.len()).max(base)) {
            let doc = format!("{}{}{}", x, y.repeat(k), z);
            let what = format!("{:?} {:?} * {} {:?}", x, y, k, z);
            let bad = match watched(&what, || parse(&doc)) {
                Err(_) => Some("a panic"),
                Ok(Err(m)) if m.is_empty() => Some("an empty message"),
                Ok(Err(_)) if acc => Some("rejected"),
                Ok(Err(_)) => None,
                Ok(Ok(_)) if !acc => Some("accepted"),
                Ok(Ok(g)) => not_the_one(&g, &pumped(&v, k), trip, &what, &mut Rng::new(seed, i * 1000 + k as u64)),
            };
            let one = |t: &str| t.chars().take(60).collect::<String>();
            rep.check(bad.is_none(), || {
                o(vec![
                    ("doc", s(&format!("{} + {} * {} + {}", one(&x), k, one(&y), one(&z)))),
                    ("specification", s(v.get("v").str())),
                    ("result", s(bad.unwrap_or_default())),
                ])
            });
            if bad.is_some() {
                break;
            }
        }
    })
    .finish()
}

/// replay-wide VECTORS REPORT few|all: texts with the letter é, each with every other
/// character of its class (above ASCII) in its place, or with those of the blocks that have
/// something special in them
fn replay_wide(a: &[String]) {
    let all_of_them = a[2] == "all";
    let chars: Vec<u32> = (128..=0x10ffff)
        .filter(|c| all_of_them || matches!(c, 0..=0x33ff | 0xa000..=0xabff | 0xd700..=0xffff | 0xe0000..=0xe01ff) || c % 97 == 5)
        .collect();
    let vs: Vec<J> = std::fs::read_to_string(&a[0])
        .unwrap()
        .lines()
        .map(|l| match J::parse(l) {
            J::S(t) => J::parse(&t),
            v => v,
        })
        .collect();
    let mut all = Report::new(&a[1]);
    let workers = threads();
    let parts: Vec<Report> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..workers)
            .map(|w| {
                let (vs, chars) = (&vs, &chars);
                sc.spawn(move || {
                    let mut rep = Report::new("");
                    for v in vs {
                        let doc = v.get("doc").text();
                        let acc = v.get("v").str() == "acc";
                        let (a, b) = doc.split_once('é').unwrap();
                        // the events once, with their texts cut where the letter is
                        let ev = v.get("ev").dump();
                        let ev: Vec<&str> = ev.split("233").collect();
                        for &code in chars.iter().skip(w).step_by(workers) {
                            let ch = match char::from_u32(code) {
                                Some(ch) if code != 0xfeff => ch,
                                _ => continue,
                            };
                            let doc = format!("{}{}{}", a, ch, b);
                            let (res, got) = real_parse(&doc);
                            let ok = if acc { res == "ok" && J::A(got).dump() == ev.join(&code.to_string()) } else { res == "err" };
                            rep.check(ok, || {
                                o(vec![("doc", s(&doc)), ("character", n(code as usize)), ("specification", s(v.get("v").str())), ("result", s(res))])
                            });
                        }
                    }
                    rep
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for r in parts {
        all.cases += r.cases;
        all.bad.extend(r.bad)
    }
    all.bad.truncate(20);
    all.finish()
}

/// build-hist CFG HISTORIES REPORT: building by hand
fn build_hist(a: &[String]) {
    let cfg = J::parse(&std::fs::read_to_string(&a[0]).unwrap());
    for_lines(&a[1], &a[2], |_, v, rep| {
        let bad = watched("build", || gvh::full::history(&v, cfg.get("stmts").arr())).unwrap_or(Some("panic".to_string()));
        rep.check(bad.is_none(), || o(vec![("ops", v.get("ops").clone()), ("what", s(&bad.unwrap_or_default()))]));
    })
    .finish()
}

/// build-eq PAIRS REPORT: equality of elements
fn build_eq(a: &[String]) {
    for_lines(&a[0], &a[1], |_, v, rep| {
        let bad = watched("compare", || gvh::full::compare(v.get("l"), v.get("r"), v.get("same").bool())).unwrap_or(Some("panic".to_string()));
        rep.check(bad.is_none(), || o(vec![("same", v.get("same").clone()), ("what", s(&bad.unwrap_or_default()))]));
    })
    .finish()
}

/// replay-toks CFG VECTORS SEED REPORT [verdict]: token strings, written with different gaps
fn replay_toks(a: &[String]) {
    let cfg = J::parse(&std::fs::read_to_string(&a[0]).unwrap());
    let texts: Vec<String> = cfg.get("toks").arr().iter().map(|t| t.get("text").str().to_string()).collect();
    let seed: u64 = a[2].parse().unwrap();
    let verdict_only = a.get(4).map(|x| x == "verdict").unwrap_or(false);
    for_lines(&a[1], &a[3], |_, v, rep| {
        let mut r = Rng::new(seed, hash(&v.get("toks").dump()));
        let verdict = v.get("v").str();
        let toks: Vec<String> =
            v.get("toks").arr().iter().filter(|t| t.int() > 0).map(|t| texts[t.int() as usize - 1].clone()).collect();
        let mut docs = vec![];
        if verdict == "acc" {
            docs.push(toks.join(" "));
            docs.push(gen::join(&toks, &mut r, 0));
            docs.push(gen::join(&toks, &mut r, 60));
        } else {
            docs.push(toks.join(" "));
            docs.push(gen::join(&toks, &mut r, 60));
            // whatever follows, a text that began like this stays rejected
            if v.get("toks").arr().iter().all(|t| t.int() > 0) {
                let open = v.get("open").int() as usize;
                docs.push(format!("{} {}", toks.join(" "), "}".repeat(open)));
                docs.push(format!("{} ]{}", toks.join(" "), "}".repeat(open)));
                docs.push(format!("{} a {}", toks.join(" "), "}".repeat(open)));
                docs.push(format!("{} = a ]; b {}", toks.join(" "), "}".repeat(open)));
            }
        }
        for d in docs {
            if verdict_only && verdict == "acc" {
                let (res, _) = real_parse(&d);
                rep.check(res == "ok", || o(vec![("doc", s(&d)), ("specification", s("acc")), ("result", s(res))]));
            } else {
                check_doc(rep, &d, verdict, v.get("ev"))
            }
        }
    })
    .finish()
}

// ---- anonymous parts ----

/// one parse as the specification sees it
fn anon_op(t: usize, d: usize, doc: &str) -> J {
    let (res, names, dig) = match watched(doc, || parse(doc)) {
        Err(_) => ("panic", vec![], String::new()),
        Ok(Err(_)) => ("err", vec![], String::new()),
        Ok(Ok(g)) => {
            let (names, h) = gvh::anon::strip(&g);
            let text = graphviz_rust::print(g, &mut PrinterContext::default());
            ("ok", names, format!("{:x}", hash(&format!("{:?} {}", h, text))))
        }
    };
    let void = names.iter().take(50).all(|v| gvh::anon::void(v));
    let name = |v: &String| if v.is_ascii() { s(v) } else { s(&gvh::outs::word(&[b"\xff", v.as_bytes()].concat())) };
    o(vec![("t", n(t)), ("d", n(d)), ("res", s(res)), ("dig", s(&dig)), ("void", J::B(void)), ("names", J::A(names.iter().map(name).collect()))])
}
fn anon_record(docs: &[(String, usize)], ops: Vec<J>) -> J {
    let texts = docs.iter().map(|d| s(&d.0.chars().take(200).collect::<String>())).collect();
    o(vec![("docs", J::A(texts)), ("parts", J::A(docs.iter().map(|d| n(d.1)).collect())), ("ops", J::A(ops))])
}
/// documents with the number of their anonymous parts
fn anon_docs(p: &str) -> Vec<(String, usize)> {
    let mut v: Vec<(String, usize)> = vec![];
    for l in std::fs::read_to_string(p).unwrap().lines() {
        let x = match J::parse(l) {
            J::S(t) => J::parse(&t),
            x => x,
        };
        if x.get("v").str() == "acc" {
            let k = x.get("ev").arr().iter().filter(|e| ["graph", "sub"].contains(&e.get("o").str()) && e.get("a").get("k").str() == "a").count();
            v.push((x.get("doc").text(), k))
        }
    }
    v.sort();
    v
}

/// gen-anon VECTORS HISTORIES SEED OUT: histories of parses by several threads, one after the other
fn gen_anon(a: &[String]) {
    let docs = anon_docs(&a[0]);
    let seed: u64 = a[2].parse().unwrap();
    let mut out = Out::new(&a[3]);
    // threads that parse when told to
    let (btx, brx) = std::sync::mpsc::channel::<J>();
    let workers: Vec<std::sync::mpsc::Sender<(usize, usize, String)>> = (0..3)
        .map(|_| {
            let (tx, rx) = std::sync::mpsc::channel::<(usize, usize, String)>();
            let b = btx.clone();
            std::thread::spawn(move || {
                for (t, d, doc) in rx {
                    b.send(anon_op(t, d, &doc)).unwrap()
                }
            });
            tx
        })
        .collect();
    let classes: Vec<Vec<&(String, usize)>> = [1, 3, 0].iter().map(|k| docs.iter().filter(|d| d.1 == *k).collect()).collect();
    let mut all = vec![];
    for (k, l) in std::fs::read_to_string(&a[1]).unwrap().lines().enumerate() {
        let h = match J::parse(l) {
            J::S(t) => J::parse(&t),
            x => x,
        };
        let mut r = Rng::new(seed, k as u64 + 1);
        let picked: Vec<(String, usize)> = classes.iter().map(|c| (*r.pick(c)).clone()).collect();
        let ops: Vec<J> = h
            .get("ops")
            .arr()
            .iter()
            .map(|x| {
                let (t, d) = (x.get("t").int() as usize, x.get("d").int() as usize);
                workers[t - 1].send((t, d, picked[d - 1].0.clone())).unwrap();
                brx.recv().unwrap()
            })
            .collect();
        all.extend(ops.iter().map(|x| x.get("names").clone()));
        out.line(&anon_record(&picked, ops));
    }
    // the whole of it, as one
    let names: Vec<J> = all.iter().flat_map(|x| x.arr().to_vec()).collect();
    let whole = o(vec![("t", n(0)), ("d", n(1)), ("res", s("ok")), ("dig", s("-")), ("void", J::B(true)), ("names", J::A(names.clone()))]);
    out.line(&anon_record(&[("all of the documents before".to_string(), names.len())], vec![whole]));
}

/// storm-anon SEED ROUNDS BULK OUT: parses by several threads at once
fn storm_anon(a: &[String]) {
    let seed: u64 = a[0].parse().unwrap();
    let rounds: usize = a[1].parse().unwrap();
    let bulk: usize = a[2].parse().unwrap();
    let mut out = Out::new(&a[3]);
    for k in 0..rounds {
        let mut r = Rng::new(seed, k as u64 + 1);
        let docs: Vec<(String, usize)> = (0..4)
            .map(|_| {
                let g = gen::graph(&mut r, &Profile::structure());
                let w = Writing::random(&mut r);
                let t = gen::tokens(&g, &mut r, w);
                (gen::join(&t, &mut r, 20), gvh::anon::strip(&g).0.len())
            })
            .collect();
        out.line(&anon_record(&docs, at_once(&docs, 8, 5, &mut r)));
    }
    if bulk > 0 {
        let k = bulk / 8;
        let mut r = Rng::new(seed, 0);
        let docs: Vec<(String, usize)> = vec![
            (format!("graph {{{}}}", "{}".repeat(k)), k + 1),
            (format!("digraph x {{{}}}", "subgraph {a}->subgraph b {};".repeat(k)), k),
            (format!("strict graph {{{} a}}", "subgraph{subgraph{}}--{} ".repeat(k / 3)), k / 3 * 3 + 1),
        ];
        out.line(&anon_record(&docs, at_once(&docs, 8, 1, &mut r)));
    }
}
/// every thread parses so many of the documents
fn at_once(docs: &[(String, usize)], threads: usize, each: usize, r: &mut Rng) -> Vec<J> {
    let ops = Mutex::new(vec![]);
    let start = std::sync::Barrier::new(threads);
    let picks: Vec<Vec<usize>> = (0..threads).map(|_| (0..each).map(|_| r.below(docs.len())).collect()).collect();
    std::thread::scope(|sc| {
        for (t, pick) in picks.iter().enumerate() {
            let (ops, start) = (&ops, &start);
            let f = move || {
                start.wait();
                for d in pick {
                    let op = anon_op(t + 1, d + 1, &docs[*d].0);
                    ops.lock().unwrap().push(op)
                }
            };
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, f).unwrap();
        }
    });
    ops.into_inner().unwrap()
}

fn main() {
    watchdog();
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a[0].as_str() {
        "gen-read" => gen_read(&a[1..]),
        "gen-scale" => gen_scale(&a[1..]),
        "gen-session" => gen_session(&a[1..]),
        "gen-print" => gen_print(&a[1..]),
        "gen-trip" => gen_trip(&a[1..]),
        "replay-print" => replay_print(&a[1..]),
        "replay-pump" => replay_pump(&a[1..]),
        "replay-mix" => replay_mix(&a[1..]),
        "replay-wide" => replay_wide(&a[1..]),
        "replay-docs" => replay_docs(&a[1..]),
        "replay-session" => replay_session(&a[1..]),
        "build-hist" => build_hist(&a[1..]),
        "build-eq" => build_eq(&a[1..]),
        "trip-docs" => trip_docs(&a[1..]),
        "gen-anon" => gen_anon(&a[1..]),
        "storm-anon" => storm_anon(&a[1..]),
        "gen-print-big" => gen_print_big(&a[1..]),
        "gen-deep" => gen_deep(&a[1..]),
        "gen-mut" => gen_mut(&a[1..]),
        "replay-toks" => replay_toks(&a[1..]),
        x => {
            eprintln!("unknown command {}", x);
            std::process::exit(2)
        }
    }
}
