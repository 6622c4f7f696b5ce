//! Real calls of exec against the stand-in dot, recorded event by event.
use graphviz_rust::cmd::{CommandArg, Format, Layout};
use graphviz_rust::printer::PrinterContext;
use gvh::gen;
use gvh::json::*;
use gvh::outs::*;
use gvh::rng::Rng;
use std::ffi::OsString;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::net::{UnixListener, UnixStream};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Duration;

const PATIENCE: Duration = Duration::from_secs(30);

// ---- plans ----

macro_rules! variants {
    ($t:ident: $($v:ident)*) => { [$((stringify!($v), $t::$v)),*] };
}
fn layout(name: &str) -> Layout {
    let all = variants!(Layout: Dot Neato Twopi Circo Fdp Asage Patchwork Sfdp);
    all.iter().find(|x| x.0 == name).unwrap().1
}
fn format(name: &str) -> Format {
    let all = variants!(Format: Bmp Cgimage Canon Dot Gv Xdot Xdot12 Xdot14 Eps Exr Fig Gd Gd2 Gif Gtk Ico Cmap Ismap
        Imap Cmapx ImapNp CmapxNp Jpg Jpeg Jpe Jp2 Json Json0 DotJson XdotJson Pdf Pic Pct Pict Plain PlainExt Png Pov
        Ps Ps2 Psd Sgi Svg Svgz Tga Tif Tiff Tk Vml Vmlz Vrml Vbmp Webp Xlib X11);
    all.iter().find(|x| x.0 == name).unwrap().1
}
fn arg(j: &J, convert: bool) -> CommandArg {
    let v = j.get("v").str().to_string();
    match j.get("k").str() {
        "custom" => CommandArg::Custom(v),
        "output" => CommandArg::Output(v),
        "layout" if convert => layout(&v).into(),
        "layout" => CommandArg::Layout(layout(&v)),
        "format" if convert => format(&v).into(),
        _ => CommandArg::Format(format(&v)),
    }
}

enum What {
    Text(String),
    Graph(dot_structures::Graph, J),
}
struct Plan {
    what: What,
    text: String,
    args: Vec<J>,
    fault: String,
    tmp: String,
    how: String,
    out: Vec<u8>,
    err: Vec<u8>,
    order: String,
    outspec: String,
    convert: bool,
    nonce: bool,
}
fn plan(j: &J, salt: u64) -> Plan {
    let e = j.get("end");
    let t = j.get("text");
    let what = match (j.get("api").str(), t.get("kind").str()) {
        ("exec", _) => {
            // the text is what print gives
            let mut r = Rng::new(t.get("n").int() as u64, salt);
            let g = gen::graph(&mut r, &gen::Profile::mixed());
            let set = gvh::print::settings(&mut r);
            What::Graph(g, set)
        }
        (_, "lit") => What::Text(t.get("t").str().to_string()),
        (_, "big") => What::Text("graph { a -- b }\n".repeat(t.get("n").int() as usize / 17 + 1)),
        _ => What::Text("digraph \"é日😀\" { ß -> <b>ü</b> }\r\n".repeat(t.get("n").int() as usize)),
    };
    let text = match &what {
        What::Text(t) => t.clone(),
        What::Graph(g, set) => graphviz_rust::print(g.clone(), &mut gvh::print::context(set, false)),
    };
    let (o_, r_) = (e.get("out"), e.get("err"));
    Plan {
        what,
        text,
        args: j.get("args").arr().to_vec(),
        fault: j.get("fault").str().to_string(),
        tmp: j.get("tmp").str().to_string(),
        how: e.get("how").str().to_string(),
        out: bytes(o_.get("kind").str(), o_.get("len").int() as usize),
        err: bytes(r_.get("kind").str(), r_.get("len").int() as usize),
        order: e.get("order").str().to_string(),
        outspec: format!("{} {} {} {}", o_.get("kind").str(), o_.get("len").int(), r_.get("kind").str(), r_.get("len").int()),
        convert: matches!(j.get("conv"), J::B(true)),
        nonce: false,
    }
}
impl Plan {
    fn all_args(&self, c: usize) -> Vec<J> {
        let mut a = self.args.clone();
        if self.nonce {
            a.push(o(vec![("k", s("custom")), ("v", s(&format!("-Gcall={}", c)))]))
        }
        if self.fault == "badarg" {
            let v = if c % 2 == 0 { "a\0b".to_string() } else { "x".repeat(200_000) };
            a.push(o(vec![("k", s("custom")), ("v", s(&v))]))
        }
        a
    }
    /// as the specification sees it
    fn json(&self, c: usize) -> J {
        // a word no process can be given is never seen, so it need not be spelled out
        let args: Vec<J> = if self.fault == "badarg" { self.args.clone() } else { self.all_args(c) };
        o(vec![("args", J::A(args)), ("fault", s(&self.fault)), ("text", s(&digest(self.text.as_bytes())))])
    }
    fn run(&self, c: usize) -> Res {
        let args: Vec<CommandArg> = self.all_args(c).iter().map(|a| arg(a, self.convert)).collect();
        let r = catch_unwind(AssertUnwindSafe(|| match &self.what {
            What::Text(t) => graphviz_rust::exec_dot(t.clone(), args),
            What::Graph(g, set) => {
                let mut ctx: PrinterContext = gvh::print::context(set, false);
                graphviz_rust::exec(g.clone(), &mut ctx, args)
            }
        }));
        match r {
            Err(_) => Res { res: "panic", out: "".into(), has: false, msg: String::new() },
            Ok(Ok(b)) => Res { res: "ok", out: digest(&b), has: false, msg: String::new() },
            Ok(Err(e)) => {
                let m = e.to_string();
                let has = m.contains(&String::from_utf8_lossy(&self.err).to_string());
                Res { res: "err", out: "".into(), has, msg: m.chars().take(80).collect() }
            }
        }
    }
    fn end_line(&self) -> String {
        format!("{} {} {}\n", self.how, self.outspec, self.order)
    }
}
struct Res {
    res: &'static str,
    out: String,
    has: bool,
    msg: String,
}

// ---- the stand-in's side ----

struct Dot {
    pid: u32,
    words: Vec<String>,
    path: Vec<u8>,
    cwd: Vec<u8>,
    input: String,
    up: UnixStream,
    down: BufReader<UnixStream>,
}
fn hello(st: UnixStream) -> Option<Dot> {
    let mut down = BufReader::new(st.try_clone().ok()?);
    let mut line = String::new();
    if down.read_line(&mut line).ok()? == 0 {
        return None;
    }
    let mut f = line.split_whitespace();
    let pid = f.next()?.parse().ok()?;
    let input = f.next()?.to_string();
    let mut raw: Vec<Vec<u8>> = f.map(|x| unhex(&x[1..])).collect();
    let cwd = raw.remove(0);
    let path = raw.pop().unwrap_or_default();
    Some(Dot { pid, cwd, words: raw.iter().map(|w| word(w)).collect(), path, input, up: st, down })
}
impl Dot {
    /// tell it how to end; gives its input as it is now
    fn prepare(&mut self, p: &Plan) -> String {
        let _ = self.up.write_all(p.end_line().as_bytes());
        let mut line = String::new();
        let _ = self.down.read_line(&mut line);
        line.trim().to_string()
    }
    fn go(&mut self, p: &Plan) {
        let _ = self.up.write_all(b"go\n");
        if let Some(sig) = p.how.strip_prefix("signal") {
            let mut line = String::new();
            let _ = self.down.read_line(&mut line);
            let _ = std::process::Command::new("/bin/sh").arg("-c").arg(format!("kill -{} {}", sig, self.pid)).status();
        }
    }
    fn event(&self, c: usize) -> J {
        o(vec![
            ("ev", s("dot")),
            ("c", n(c)),
            ("words", J::A(self.words.iter().map(|w| s(w)).collect())),
            ("path", s(&hex(&self.path))),
            ("cwd", s(&word(&self.cwd))),
            ("input", s(&self.input)),
        ])
    }
}
fn end_event(c: usize, p: &Plan, d: &Dot, still: &str) -> J {
    o(vec![
        ("ev", s("end")),
        ("c", n(c)),
        ("how", s(&p.how)),
        ("out", s(&digest(&p.out))),
        ("err", s(&digest(&p.err))),
        ("input", s(&d.input)),
        ("still", s(still)),
    ])
}
fn ret_event(c: usize, r: &Res, paths: &[Vec<u8>]) -> J {
    let gone = paths.iter().all(|p| std::fs::symlink_metadata(Path::new(&OsString::from_vec(p.clone()))).is_err());
    o(vec![("ev", s("ret")), ("c", n(c)), ("res", s(r.res)), ("out", s(&r.out)), ("has", J::B(r.has)), ("msg", s(&r.msg)), ("gone", J::B(gone))])
}

/// everything below a directory
fn listing(dir: &Path, pre: &str, out: &mut Vec<String>) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let name = format!("{}/{}", pre, word(e.file_name().as_bytes()));
            let p = e.path();
            if p.is_dir() {
                out.push(format!("{}/", name));
                listing(&p, &name, out)
            } else {
                out.push(format!("{} {}", name, std::fs::read(&p).map(|b| digest(&b)).unwrap_or_default()))
            }
        }
    }
    out.sort()
}

struct Box_ {
    dir: PathBuf,
}
impl Box_ {
    fn new(dir: &Path, dot: &Path) -> Box_ {
        for d in ["bin", "noexec", "empty"] {
            std::fs::create_dir_all(dir.join(d)).unwrap();
        }
        std::os::unix::fs::symlink(dot, dir.join("bin/dot")).unwrap();
        std::fs::write(dir.join("noexec/dot"), b"#!/bin/sh\n").unwrap();
        std::fs::set_permissions(dir.join("noexec/dot"), PermissionsExt::from_mode(0o644)).unwrap();
        std::fs::write(dir.join("afile"), b"x").unwrap();
        for k in ["plain", "blank", "uni", "raw"] {
            let t = Box_::tmp_of(dir, k);
            std::fs::create_dir_all(&t).unwrap();
            std::fs::write(t.join("keep.dot"), b"graph { keep }").unwrap();
        }
        Box_ { dir: dir.to_path_buf() }
    }
    fn tmp_of(dir: &Path, kind: &str) -> PathBuf {
        match kind {
            "blank" => dir.join("tmp/a b'c\"$(d) *"),
            "uni" => dir.join("tmp/é日😀"),
            "raw" => dir.join("tmp").join(OsString::from_vec(vec![b'r', 0xff, 0xc3, b'w'])),
            _ => dir.join("tmp/plain"),
        }
    }
    fn enter(&self, p: &Plan, c: usize) {
        let tmp = match p.fault.as_str() {
            "nodir" if c % 2 == 0 => self.dir.join("afile"),
            "nodir" => self.dir.join("missing"),
            _ => Box_::tmp_of(&self.dir, &p.tmp),
        };
        std::env::set_var("TMPDIR", tmp);
        std::env::set_var(
            "PATH",
            self.dir.join(match p.fault.as_str() {
                "nodot" => "empty",
                "noexec" => "noexec",
                _ => "bin",
            }),
        );
    }
    fn files(&self) -> J {
        let mut v = vec![];
        listing(&self.dir.join("tmp"), "", &mut v);
        J::A(v.iter().map(|x| s(x)).collect())
    }
}

enum Msg {
    Dot(Dot),
    Ret(usize, Res),
}

fn give_up(what: &J) -> ! {
    if let Ok(p) = std::env::var("GVH_INFLIGHT") {
        let _ = std::fs::write(p, what.dump());
    }
    std::process::exit(3)
}

struct Scene {
    plans: Vec<Arc<Plan>>,
    dots: Vec<Option<Dot>>,
    paths: Vec<Vec<Vec<u8>>>,
    back: Vec<bool>,
    ops: Vec<J>,
}
impl Scene {
    fn ls(&mut self, b: &Box_) {
        self.ops.push(o(vec![("ev", s("ls")), ("files", b.files())]))
    }
    fn ret(&mut self, c: usize, r: Res, b: &Box_) {
        self.back[c - 1] = true;
        self.ops.push(ret_event(c, &r, &self.paths[c - 1]));
        self.ls(b)
    }
    fn dot(&mut self, c: usize, d: Dot) {
        self.ops.push(d.event(c));
        if c > 0 {
            self.paths[c - 1].push(d.path.clone());
            self.dots[c - 1] = Some(d)
        }
    }
    fn end(&mut self, c: usize) {
        let p = self.plans[c - 1].clone();
        if let Some(mut d) = self.dots[c - 1].take() {
            let still = d.prepare(&p);
            self.ops.push(end_event(c, &p, &d, &still));
            d.go(&p)
        }
    }
}

/// Threads that make one call after the other.
struct Workers(Vec<Sender<(Arc<Plan>, usize)>>);
impl Workers {
    fn call(&mut self, k: usize, p: Arc<Plan>, c: usize, back: &Sender<Msg>) {
        while self.0.len() <= k {
            let (tx, rx) = channel::<(Arc<Plan>, usize)>();
            let back = back.clone();
            std::thread::spawn(move || {
                for (p, c) in rx {
                    let r = p.run(c);
                    let _ = back.send(Msg::Ret(c, r));
                }
            });
            self.0.push(tx)
        }
        self.0[k].send((p, c)).unwrap()
    }
}

/// One scenario, starts and ends of dot in the given order.
fn scene(case: &J, salt: u64, b: &Box_, rx: &Receiver<Msg>, tx: &Sender<Msg>, workers: &mut Workers) -> J {
    let plans: Vec<Arc<Plan>> = case.get("plans").arr().iter().enumerate().map(|(i, p)| Arc::new(plan(p, salt * 8 + i as u64))).collect();
    let k = plans.len();
    let before = b.files();
    let mut sc = Scene { dots: (0..k).map(|_| None).collect(), paths: vec![vec![]; k], back: vec![false; k], ops: vec![], plans };
    let wait = |sc: &Scene| match rx.recv_timeout(PATIENCE) {
        Ok(m) => m,
        Err(_) => give_up(&o(vec![("case", case.clone()), ("events", J::A(sc.ops.clone()))])),
    };
    for step in case.get("sched").arr() {
        let c = step.get("c").int() as usize;
        if step.get("a").str() == "start" {
            let p = sc.plans[c - 1].clone();
            b.enter(&p, c);
            sc.ops.push(o(vec![("ev", s("call")), ("c", n(c))]));
            if salt % 5 == 0 {
                // in a thread of its own, else in one that has made calls before
                let t = tx.clone();
                std::thread::spawn(move || {
                    let r = p.run(c);
                    let _ = t.send(Msg::Ret(c, r));
                });
            } else {
                workers.call(c, p, c, tx)
            }
            // until its dot is there or it is back
            loop {
                match wait(&sc) {
                    Msg::Dot(d) => {
                        sc.dot(c, d);
                        break;
                    }
                    Msg::Ret(d, r) => {
                        sc.ret(d, r, b);
                        if d == c {
                            break;
                        }
                    }
                }
            }
            sc.ls(b)
        } else {
            sc.end(c);
            while !sc.back[c - 1] {
                match wait(&sc) {
                    Msg::Ret(d, r) => sc.ret(d, r, b),
                    Msg::Dot(d) => {
                        // once more
                        sc.dot(c, d);
                        sc.end(c)
                    }
                }
            }
        }
    }
    for c in 1..=k {
        sc.end(c)
    }
    while sc.back.iter().any(|x| !x) {
        match wait(&sc) {
            Msg::Ret(d, r) => sc.ret(d, r, b),
            Msg::Dot(d) => {
                let c = (1..=k).find(|c| !sc.back[c - 1]).unwrap();
                sc.dot(c, d);
                sc.end(c)
            }
        }
    }
    sc.ls(b);
    o(vec![
        ("plans", J::A(sc.plans.iter().enumerate().map(|(i, p)| p.json(i + 1)).collect())),
        ("cwd", s(&word(std::env::current_dir().unwrap().as_os_str().as_bytes()))),
        ("before", before),
        ("ops", J::A(sc.ops)),
        ("case", case.clone()),
    ])
}

/// run CASES OUT SCRATCH DOT
fn run(a: &[String]) {
    let text = std::fs::read_to_string(&a[0]).unwrap();
    let mut out = std::io::BufWriter::new(open_out(&a[1]));
    let b = Box_::new(Path::new(&a[2]), Path::new(&a[3]));
    let sock = b.dir.join("sock");
    let l = UnixListener::bind(&sock).unwrap();
    std::env::set_var("GVX_SOCK", &sock);
    let (tx, rx) = channel();
    let t = tx.clone();
    std::thread::spawn(move || {
        for st in l.incoming().flatten() {
            if let Some(d) = hello(st) {
                let _ = t.send(Msg::Dot(d));
            }
        }
    });
    let mut workers = Workers(vec![]);
    for (i, line) in text.lines().enumerate() {
        let case = J::parse(line);
        let rec = scene(&case, i as u64 + 1, &b, &rx, &tx, &mut workers);
        out.write_all(rec.dump().as_bytes()).unwrap();
        out.write_all(b"\n").unwrap();
    }
}

fn open_out(p: &str) -> Box<dyn Write> {
    if p == "-" {
        Box::new(std::io::stdout())
    } else {
        Box::new(std::fs::File::create(p).unwrap())
    }
}

/// storm SEED ROUNDS THREADS CALLS together|apart OUT SCRATCH DOT: calls from several threads,
/// unsteered; together: all threads make each of their calls at the same moment
fn storm(a: &[String]) {
    let seed: u64 = a[0].parse().unwrap();
    let rounds: u64 = a[1].parse().unwrap();
    let threads: usize = a[2].parse().unwrap();
    let calls: usize = a[3].parse().unwrap();
    let together = a[4] == "together";
    let mut out = std::io::BufWriter::new(open_out(&a[5]));
    let b = Box_::new(Path::new(&a[6]), Path::new(&a[7]));
    let sock = b.dir.join("sock");
    let l = UnixListener::bind(&sock).unwrap();
    std::env::set_var("GVX_SOCK", &sock);
    // the plans and events of the round under way
    type Shared = (Vec<Arc<Plan>>, Vec<J>, Vec<Vec<Vec<u8>>>);
    let shared: Arc<Mutex<Shared>> = Arc::new(Mutex::new((vec![], vec![], vec![])));
    let sh = shared.clone();
    std::thread::spawn(move || {
        for st in l.incoming().flatten() {
            let sh = sh.clone();
            std::thread::spawn(move || {
                let mut d = match hello(st) {
                    Some(d) => d,
                    None => return,
                };
                let mut g = sh.lock().unwrap();
                let c = d
                    .words
                    .iter()
                    .filter_map(|w| w.strip_prefix("-Gcall=").and_then(|x| x.parse::<usize>().ok()))
                    .next()
                    .filter(|c| *c >= 1 && *c <= g.0.len())
                    .unwrap_or(0);
                let ev = d.event(c);
                g.1.push(ev);
                if c > 0 {
                    let p = d.path.clone();
                    g.2[c - 1].push(p);
                }
                let p = g.0[c.max(1) - 1].clone();
                drop(g);
                std::thread::sleep(Duration::from_micros((d.pid as u64 * 7919) % 4000));
                let still = d.prepare(&p);
                let ev = end_event(c, &p, &d, &still);
                sh.lock().unwrap().1.push(ev);
                d.go(&p)
            });
        }
    });
    for round in 0..rounds {
        let mut r = Rng::new(seed, round + 1);
        let total = threads * calls;
        // in every other round all texts are the same
        let same = round % 2 == 0;
        let plans: Vec<Arc<Plan>> = (0..total)
            .map(|i| {
                let how = *r.pick(&["exit0", "exit0", "exit0", "exit1", "exit3", "signal9"]);
                let kind = *r.pick(&["text", "bin", "utf8", "empty"]);
                let len = *r.pick(&[0usize, 10, 300, 5000, 70000]);
                let end = o(vec![
                    ("how", s(how)),
                    ("out", o(vec![("kind", s(kind)), ("len", n(len + i))])),
                    ("err", o(vec![("kind", s("text")), ("len", n(r.below(200)))])),
                    ("order", s(r.pick(&["out", "err", "mix"]))),
                ]);
                let k = if same { 3 } else { i + 1 };
                let j = o(vec![
                    ("api", s("exec_dot")),
                    ("args", J::A(vec![])),
                    ("text", o(vec![("kind", s("uni")), ("n", n(k))])),
                    ("fault", s("none")),
                    ("tmp", s("plain")),
                    ("end", end),
                ]);
                let mut p = plan(&j, round);
                p.nonce = true;
                Arc::new(p)
            })
            .collect();
        b.enter(&plans[0], 1);
        let before = b.files();
        *shared.lock().unwrap() = (plans.clone(), vec![], vec![vec![]; total]);
        let done = Arc::new(Mutex::new(0usize));
        let bar = Arc::new(Barrier::new(if together { threads } else { 1 }));
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (plans, sh, done, bar) = (plans.clone(), shared.clone(), done.clone(), bar.clone());
                let pause = if together { 0 } else { r.below(3000) as u64 };
                std::thread::spawn(move || {
                    std::thread::sleep(Duration::from_micros(pause));
                    for k in 0..calls {
                        let c = t * calls + k + 1;
                        sh.lock().unwrap().1.push(o(vec![("ev", s("call")), ("c", n(c))]));
                        bar.wait();
                        let r = plans[c - 1].run(c);
                        let mut g = sh.lock().unwrap();
                        let ev = ret_event(c, &r, &g.2[c - 1]);
                        g.1.push(ev);
                        *done.lock().unwrap() += 1;
                    }
                })
            })
            .collect();
        let t0 = std::time::Instant::now();
        while *done.lock().unwrap() < total {
            std::thread::sleep(Duration::from_millis(1));
            if t0.elapsed() > PATIENCE * 2 || (hs.iter().all(|h| h.is_finished()) && *done.lock().unwrap() < total) {
                give_up(&o(vec![("storm", n(round as usize)), ("events", J::A(shared.lock().unwrap().1.clone()))]))
            }
        }
        for h in hs {
            let _ = h.join();
        }
        let mut ops = std::mem::take(&mut shared.lock().unwrap().1);
        ops.push(o(vec![("ev", s("ls")), ("files", b.files())]));
        let rec = o(vec![
            ("plans", J::A(plans.iter().enumerate().map(|(i, p)| p.json(i + 1)).collect())),
            ("cwd", s(&word(std::env::current_dir().unwrap().as_os_str().as_bytes()))),
        ("before", before),
            ("ops", J::A(ops)),
        ]);
        out.write_all(rec.dump().as_bytes()).unwrap();
        out.write_all(b"\n").unwrap();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a[0].as_str() {
        "run" => run(&a[1..]),
        "storm" => storm(&a[1..]),
        _ => std::process::exit(2),
    }
    // threads of a broken call may still be about
    std::process::exit(0)
}
