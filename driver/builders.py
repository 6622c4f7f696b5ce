"""Terms of Builder.tla as Rust source."""
import os

import core

PARTS = 8


def lit(codes):
    return '"' + "".join("\\u{%x}" % c for c in codes) + '"' if any(c < 32 or c > 126 or c in (34, 92) for c in codes) else '"' + "".join(map(chr, codes)) + '"'


def expr(e):
    t = e["t"]
    how = e["how"]
    if how == "lit":
        return lit(t)
    if how == "own":
        return "String::from(%s)" % lit(t)
    if how == "ref":
        return "&String::from(%s)" % lit(t)
    if how == "tick":
        return "tick(%s)" % lit(t)
    if how == "fmt":
        return 'format!("{}{}", %s, %s)' % (lit(t[:1]), lit(t[1:]))
    if how == "call":
        return "%s.to_string()" % lit(t)
    if how == "char":
        return "'\\u{%x}'" % t[0]
    if how == "block":
        return "{ %s }" % lit(t)
    # a number, a boolean, a name
    assert how in ("raw", "var"), how
    return "".join(map(chr, t)) if how == "raw" else "var_" + "".join(map(chr, t))


def ident(t):
    return ((t["pre"] + " ") if t["pre"] else "") + "".join(expr(e) for e in t["e"])


def items(t):
    xs = ", ".join(source(x) for x in t["items"])
    return {"none": "", "vec": ", vec![%s]" % xs, "seq": "; %s" % xs}[t["form"]]


def source(t):
    m = t["m"]
    subs = [source(x) for x in t["sub"]]
    if m == "id":
        return "id!(%s)" % ident(t)
    if m == "port":
        if t["e"]:
            return "port!(%s, %s)" % ("".join(subs), ident(t))
        return "port!(%s)" % "".join(subs)
    if m == "nid":
        return "node_id!(%s)" % ", ".join([ident(t)] + subs)
    if m == "attr":
        return "attr!(%s, %s)" % (ident(t), ident(t["sub"][0]))
    if m == "attrs":
        return "attrs!(%s%s)" % (t["pre"], items(t).lstrip(",") if t["form"] == "vec" else items(t))
    if m == "node":
        return "node!(%s%s)" % (" => ".join([ident(t)] + subs), items(t))
    if m == "edge":
        return "edge!(%s%s)" % (" => ".join(subs), items(t))
    if m == "chain":
        return "Edge { ty: EdgeTy::Chain(vec![%s]), attributes: vec![%s] }" % (", ".join("Vertex::from(%s)" % s for s in subs), ", ".join(source(x) for x in t["items"]))
    if m == "sub":
        return "subgraph!(%s%s)" % (ident(t), items(t))
    if m == "graph":
        return "graph!(%s %s%s)" % (t["pre"], subs[0], items(t))
    if m == "stmt":
        return "stmt!(%s)" % subs[0]
    if m == "stmtfrom":
        return "Stmt::from(%s)" % subs[0]
    if m == "vertexfrom":
        return "Vertex::from(%s)" % subs[0]
    if m == "stmtinto":
        return "{ let s: Stmt = (%s).into(); s }" % subs[0]
    if m == "vertexinto":
        return "{ let v: Vertex = (%s).into(); v }" % subs[0]
    if m == "attrsnew":
        return 'GraphAttributes::new("%s"%s)' % (t["pre"], items(t))
    if m == "nodenew":
        return "Node::new(%s%s)" % (subs[0], items(t))
    raise ValueError(m)


def write(terms, folder, names):
    """One function per term, spread over PARTS files."""
    for p in range(PARTS):
        mine = [(i, t) for i, t in enumerate(terms) if i % PARTS == p]
        with open("%s/part%d.rs" % (folder, p), "w") as f:
            for i, t in mine:
                s = source(t)
                vs = "".join("let var_%s = %s; " % (n, lit([ord(c) for c in n])) for n in names if "var_" + n in s)
                f.write("fn t%d() { %smade(%d, || %s) }\n" % (i, vs, i, s))
            f.write("fn main() { %s }\n" % " ".join("t%d();" % i for i, _ in mine))


def program(terms, folder, names):
    """The programs made of the terms; the compiler's messages if there are none."""
    os.makedirs(folder, exist_ok=True)
    write(terms, folder, names)
    r = core.cargo(["build", "--offline", "--bins"], crate="builders", env=dict(GVB_TERMS=folder))
    return r.stderr if r.returncode != 0 else None
