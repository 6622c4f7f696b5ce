//! Real attributes against the catalogue of the specification.
#![allow(non_camel_case_types)]
use dot_generator::*;
use dot_structures::{Attribute, Graph, Id, Node, NodeId, Stmt};
use graphviz_rust::attributes::*;
use graphviz_rust::printer::{DotPrinter, PrinterContext};
use gvh::json::{o, s, J};
use into_attr::IntoAttribute;
use into_attr_derive::IntoAttribute;
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! pick {
    ($t:ident, $n:expr, [$($v:ident),*]) => { match $n { $(stringify!($v) => Some($t::$v),)* _ => None } };
}

/// a value as it is given
pub struct V(String);
impl V {
    fn text(&self) -> String {
        self.0.clone()
    }
    fn parse<T: std::str::FromStr>(&self) -> T {
        self.0.parse().ok().expect("a value of the type")
    }
}

mod table {
    use super::*;
    include!("table.rs");
}

// types of a user
#[derive(Debug, IntoAttribute)]
enum my_kind {
    alpha,
    Beta,
    snake_case,
    N1,
    x_,
    y__,
    _z,
    __,
}
#[derive(Debug, IntoAttribute)]
enum OneOf {
    only,
}
#[derive(IntoAttribute)]
struct my_text(String);
#[derive(IntoAttribute)]
struct my_num(f64);
#[derive(Debug, PartialEq, IntoAttribute)]
pub struct MyInt(i64);
#[derive(IntoAttribute)]
struct my_flag(bool);
#[derive(IntoAttribute)]
struct my_char(char);
#[derive(IntoAttribute)]
struct my_color(color_name);

fn derived(name: &str, v: &V) -> Option<Attribute> {
    Some(match name {
        "my_kind" => pick!(my_kind, v.text().as_str(), [alpha, Beta, snake_case, N1, x_, y__, _z, __])?.into_attr(),
        "OneOf" => pick!(OneOf, v.text().as_str(), [only])?.into_attr(),
        "my_text" => my_text(v.text()).into_attr(),
        "my_num" => my_num(v.parse()).into_attr(),
        "MyInt" => MyInt(v.parse()).into_attr(),
        "my_flag" => my_flag(v.parse()).into_attr(),
        "my_char" => my_char(v.parse()).into_attr(),
        "my_color" => my_color(table::colour(&v.text())?).into_attr(),
        _ => return None,
    })
}

fn made(how: &str, group: &str, name: &str, v: &V) -> Option<Attribute> {
    match how {
        "ctor" => table::constructor(group, name, v),
        "type" => table::of_type(name, v),
        "def" => table::default(name),
        "derive" => derived(name, v),
        "pair" => {
            let t = v.text();
            let (a, b) = t.split_once(',')?;
            Some(NodeAttributes::margin_separate(a.parse().ok()?, b.parse().ok()?))
        }
        // as it is displayed
        "colour" => Some(Attribute(id!("color"), id!(table::colour(&v.text())?.to_string()))),
        _ => None,
    }
}

fn show(a: &Attribute) -> J {
    s(&format!("{:?}", a))
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut cases = 0i64;
    let mut bad = vec![];
    for l in std::fs::read_to_string(&a[0]).unwrap().lines() {
        let v = match J::parse(l) {
            J::S(t) => J::parse(&t),
            x => x,
        };
        let c = v.get("case");
        let (how, name) = (c.get("how").str(), c.get("fn").str());
        let (key, val) = (c.get("key").text(), c.get("val").text());
        let valid = v.get("valid") == &J::B(true);
        let given = V(c.get("in").text());
        for g in c.get("own").arr() {
            let g = g.str();
            if how == "def" && g != c.get("own").arr()[0].str() {
                continue;
            }
            cases += 1;
            let mut report = |what: &str, finding: String, got: J| {
                bad.push(o(vec![("what", s(what)), ("how", s(how)), ("group", s(g)), ("fn", s(name)), ("given", s(&given.0)), ("finding", s(&finding)),
                    ("expected", s(&format!("{}={}", key, val))), ("got", got)]))
            };
            let at = match catch_unwind(AssertUnwindSafe(|| made(how, g, name, &given))) {
                Ok(Some(a)) => a,
                Ok(None) => {
                    eprintln!("HARNESS: no such attribute {} {} {}", how, g, name);
                    std::process::exit(2)
                }
                Err(_) => {
                    report("panics", String::new(), J::Null);
                    continue;
                }
            };
            let Attribute(k, x) = &at;
            let want_key = Id::Plain(key.clone());
            // a value that is no id on its own may be quoted by the library
            let quoted = !valid && how != "ctor" && *x == Id::Plain(format!("\"{}\"", val.replace('"', "\\\"")));
            if *k != want_key {
                report("has another name", if *x == Id::Plain(val.clone()) { format!("name {}", name) } else { String::new() }, show(&at));
                continue;
            }
            if *x != Id::Plain(val.clone()) && !quoted {
                report("has another value", String::new(), show(&at));
                continue;
            }
            if quoted {
                continue;
            }
            if !valid {
                // texts of a user are the user's; all others have to print
                if how != "derive" && (c.get("ty").str() != "text" || how == "def") {
                    report("does not print as DOT", format!("{} {} {:?}", if how == "def" { "default" } else if how == "pair" { "pair" } else { "value" }, name, if how == "pair" { "" } else { val.as_str() }), show(&at));
                }
                continue;
            }
            let text = at.print(&mut PrinterContext::default());
            if text != format!("{}={}", key, val) {
                report("prints differently", String::new(), s(&text));
                continue;
            }
            let doc = graphviz_rust::print(Graph::Graph { id: id!("g"), strict: false, stmts: vec![stmt!(node!("a"; at))] }, &mut PrinterContext::default());
            let read = catch_unwind(|| graphviz_rust::parse(&doc));
            let back = match &read {
                Ok(Ok(Graph::Graph { stmts, .. })) => match stmts.first() {
                    Some(Stmt::Node(n)) if n.attributes.len() == 1 => {
                        let Attribute(k, v) = &n.attributes[0];
                        matches!((k, v), (Id::Plain(k), Id::Plain(v) | Id::Escaped(v) | Id::Html(v)) if *k == key && *v == val)
                    }
                    _ => false,
                },
                _ => false,
            };
            if !back {
                report("does not come back from DOT", String::new(), s(&doc))
            }
        }
    }
    let rep = o(vec![("cases", J::N(cases)), ("bad", J::A(bad))]);
    std::fs::write(&a[1], rep.dump()).unwrap();
}
