#![allow(unused)]
use dot_generator::*;
use dot_structures::*;
use graphviz_rust::{attributes::*, cmd::*, exec, exec_dot, parse, printer::*};
use std::fs;
/// a stand-in for dot in a folder of its own
fn stand_in(script: &str) {
    use std::os::unix::fs::PermissionsExt;
    let d = std::env::current_dir().unwrap().join("bin");
    fs::create_dir_all(&d).unwrap();
    fs::write(d.join("dot"), format!("#!/bin/bash\n{}\n", script)).unwrap();
    fs::set_permissions(d.join("dot"), fs::Permissions::from_mode(0o755)).unwrap();
    std::env::set_var("PATH", format!("{}:/usr/bin:/bin", d.display()));
}
fn body(t: &str) -> Vec<Stmt> {
    match parse(t).unwrap() {
        Graph::Graph { stmts, .. } | Graph::DiGraph { stmts, .. } => stmts,
    }
}
fn main() {
    for (t, k) in [("graph{subgraph x{a}--subgraph x{a}--b}", 3), ("graph{subgraph x{a}--subgraph x{a}--subgraph x{a}}", 3)] {
        match body(t).remove(0) {
            Stmt::Edge(Edge { ty: EdgeTy::Chain(v), .. }) => assert_eq!(v.len(), k),
            s => panic!("{:?}", s),
        }
    }
}