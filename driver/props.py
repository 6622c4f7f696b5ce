"""One function per property: which models are checked, and how they are bound to the code."""
import json
import os
import subprocess
import time

import builders
import configs
import core
import execs
from core import readable, text


def need(run, *bins):
    err = core.build(bins or ("gvh",))
    if err:
        raise core.ToolError("the harness does not build:\n" + core.first_error(err))


def doc_of(rec, state):
    return "text %r, result %s; %s" % (text(rec["doc"]), rec["res"], " ".join(state.split())[:600])


def sampled_docs(run, path, n=2):
    run.sample(path, n, lambda v: text(v["doc"]) if v.get("doc") else readable(v))


# ---------------------------------------------------------------- reading

def token_vectors(run, names, verdict_only=False):
    """All token strings over some alphabets, given to the real parser."""
    for name, cfg in configs.token_configs(run.tier).items():
        if names is not None and name not in names:
            continue
        c = run.put("toks-%s.json" % name, cfg)
        v = run.path("toks-%s.nd" % name)
        run.model("tokens/" + name, "ReadEnum", dict(CFG=c, OUT=v))
        run.replay("parse/" + name, ["replay-toks", c, v, run.seed, run.path("rep.json")] + (["verdict"] if verdict_only else []), run.path("rep.json"),
                   describe=lambda b: "text %r: specification %s, parse %s" % (b["doc"], b["specification"], b["result"]))
        run.samples.append(dict(model="tokens/" + name, alphabet=[t["text"] for t in cfg["toks"]], longest=cfg["max"]))
        os.remove(v)


def piece_vectors(run, only=None, keep=None):
    cfg = configs.piece_configs(run.tier)
    c = run.put("pieces.json", cfg)
    v = run.path("pieces.nd")
    run.model("texts", "PieceEnum", dict(CFG=c, OUT=v))
    run.replay("parse/texts", ["replay-docs", v, run.path("rep.json")], run.path("rep.json"),
               describe=lambda b: "text %r: specification %s, parse %s" % (b["doc"], b["specification"], b["result"]))
    sampled_docs(run, v)
    return v


def pump(run, kind, chars, how="parse"):
    """Texts of any length: loops of the reader, run through many times by the real parser."""
    v = run.path("loops-%s.nd" % kind)
    if not os.path.exists(v):
        raw = run.path("raw.nd")
        run.model("loops/" + kind, "PumpEnum", dict(CFG=run.put("pump-%s.json" % kind, configs.pump_config(kind, run.tier)), OUT=raw))
        by = {}
        for l in open(raw):
            r = json.loads(json.loads(l))
            r["ev"] = [dict(o=e[0], a=dict(k=e[1], t=e[2]), b=dict(k=e[3], t=e[4]), c=e[5], n=e[6], f=e[7]) for e in r["ev"]]
            by.setdefault((tuple(r["x"]), tuple(r["y"]), tuple(r["z"])), {})[r["n"]] = r
        os.remove(raw)
        groups = {}
        with open(v, "w") as f:
            for k in sorted(by):
                short, long = by[k].get(5), by[k].get(8)
                if not short or not long or short["v"] != long["v"]:
                    raise core.ToolError("what is said to be a loop is none: %r" % (readable(by[k]),))
                at = short.pop("at")
                f.write(json.dumps(dict(short, m=8, evm=long["ev"])) + "\n")
                if at and short["v"] == "acc":
                    groups.setdefault((short["c"], k[0], k[2], at), []).append(short)
        with open(run.path("mixes-%s.nd" % kind), "w") as f:
            for k in sorted(groups):
                if len(groups[k]) > 1:
                    f.write(json.dumps(dict(groups[k][0], ys=[dict(y=g["y"], ev=g["ev"][g["h1"]:g["h2"]]) for g in groups[k]])) + "\n")
        run.sample(v, 2, lambda r: dict(beginning=text(r["x"]), repeated=text(r["y"]), end=text(r["z"]), verdict=r["v"]))
    rep = run.path("rep.json")
    run.replay("%s/loops of %s" % (how, kind), ["replay-pump", v, rep, chars, run.seed, how], rep,
               describe=lambda b: "text %s: specification %s, parse %s" % (b["doc"], b["specification"], b["result"]))
    v, short = run.path("mixes-%s.nd" % kind), run.path("mixes-short.nd")
    if os.path.getsize(v):
        run.replay("%s/mixed loops of %s" % (how, kind), ["replay-mix", v, rep, chars, run.seed, how, short], rep,
                   describe=lambda b: "text %s: specification %s, parse %s" % (b["doc"], b["specification"], b["result"]))
        run.validate("short mixes of %s" % kind, "ReadTrace", short, dict(MODE="graph"), describe=doc_of)


def wide(run):
    """Every character above ASCII in the place of one."""
    v = run.path("wide.nd")
    run.model("texts with a letter above ASCII", "PieceEnum", dict(CFG=run.put("wide.json", configs.wide_config()), OUT=v))
    keep = [l for l in open(v) if "233" in l]
    open(v, "w").writelines(sorted(set(keep)))
    run.model("classes of characters", "Wide")
    rep = run.path("rep.json")
    run.replay("parse/every character", ["replay-wide", v, rep, run.pick("few", "all")], rep,
               describe=lambda b: "text %r: specification %s, parse %s" % (b["doc"], b["specification"], b["result"]))


def read_traces(run, profile, n, mode="graph", maxlen=1500, chunk=4000):
    """Random documents parsed by the real parser, validated by the reader."""
    part = 0
    while n > 0:
        k = min(n, chunk)
        t = run.path("read-%s-%d.nd" % (profile, part))
        if not run.gvh(["gen-read", profile, run.seed * 1000 + part, k, t, maxlen]):
            return
        run.validate("documents/%s/%d" % (profile, part), "ReadTrace", t, dict(MODE=mode), describe=doc_of)
        if part == 0:
            sampled_docs(run, t, 1)
        os.remove(t)
        n -= k
        part += 1


def c01(run):
    need(run)
    token_vectors(run, run.pick({"edges", "attrs", "heads", "nesting"}, None))
    read_traces(run, "structure", run.pick(1500, 40000), maxlen=run.pick(700, 2500))
    read_traces(run, "mixed", run.pick(700, 20000), maxlen=run.pick(500, 1500))
    deep(run, "graph")
    pump(run, "structure", run.pick(80000, 300000))


def c02(run):
    need(run)
    piece_vectors(run)
    token_vectors(run, {"ports"})
    read_traces(run, "ids", run.pick(2500, 60000), maxlen=run.pick(400, 1500))
    read_traces(run, "mixed", run.pick(500, 10000), maxlen=run.pick(400, 1500))
    pump(run, "ids", run.pick(80000, 300000))
    wide(run)


def c03(run):
    need(run)
    c = run.put("sep.json", configs.sep_config(run.tier, run.seed))
    v = run.path("sep.nd")
    run.model("separators", "SepEnum", dict(CFG=c, OUT=v))
    run.replay("parse/separators", ["replay-docs", v, run.path("rep.json")], run.path("rep.json"),
               describe=lambda b: "text %r: specification %s, parse %s" % (b["doc"], b["specification"], b["result"]))
    sampled_docs(run, v)
    read_traces(run, "gaps", run.pick(1500, 40000), maxlen=run.pick(600, 2000))
    pump(run, "gaps", run.pick(80000, 300000))
    wide(run)


def c04(run):
    need(run)
    token_vectors(run, run.pick({"all", "ports"}, None), verdict_only=True)
    piece_vectors(run)
    n, part = run.pick(6000, 150000), 0
    while n > 0:
        k = min(n, 6000)
        t = run.path("mut-%d.nd" % part)
        if not run.gvh(["gen-mut", run.seed * 1000 + part, k, t, run.pick(350, 800)]):
            return
        run.validate("broken texts/%d" % part, "ReadTrace", t, dict(MODE="verdict"), describe=doc_of)
        if part == 0:
            sampled_docs(run, t, 2)
        os.remove(t)
        n -= k
        part += 1


    deep(run, "verdict", "any")
    pump(run, "broken", run.pick(10000, 100000))
    wide(run)


def deep(run, mode, *stacks):
    """Texts nested deeper than any enumeration or random text, with the stacks given."""
    t = run.path("deep.nd")
    if run.gvh(["gen-deep", run.pick(300, 1500), t] + list(stacks)):
        run.validate("deep texts", "ReadTrace", t, dict(MODE=mode), describe=doc_of)


# ---------------------------------------------------------------- printing

def print_vectors(run, every):
    v = run.path("print.nd")
    run.model("save and load", "PrintEnum", dict(CFG=run.put("print.json", configs.print_config(run.tier, run.seed, every)), OUT=v))
    run.model("save and load of short statements", "PrintEnum", dict(CFG=run.put("terse.json", configs.terse_config(run.tier, run.seed)), OUT=v))
    run.sample(v, 2, lambda x: dict(settings=readable(x["set"]), text=text(x["text"])))
    return v


def c05(run):
    need(run)
    v = print_vectors(run, run.pick(13, 1))
    d = run.path("differ.nd")
    run.replay("print/graphs", ["replay-print", "denote", v, run.path("rep.json"), d], run.path("rep.json"))
    if os.path.exists(d) and os.path.getsize(d):
        run.validate("print/other layout", "ReadTrace", d, dict(MODE="print"), describe=print_of)
    n, part = run.pick(2000, 40000), 0
    while n > 0:
        k = min(n, 4000)
        t = run.path("print-%d.nd" % part)
        if not run.gvh(["gen-print", run.seed * 1000 + part, k, t]):
            return
        run.validate("printed graphs/%d" % part, "ReadTrace", t, dict(MODE="print"), describe=print_of)
        if part == 0:
            sampled_docs(run, t, 1)
        os.remove(t)
        n -= k
        part += 1


    t = run.path("print-big.nd")
    if run.gvh(["gen-print-big", run.pick(60, 200), t]):
        run.validate("big printed graphs", "ReadTrace", t, dict(MODE="print"), describe=print_of)


def print_of(rec, state):
    return "printed %r (%s) under %s; %s" % (text(rec["doc"]), rec["res"], readable(rec["set"]), " ".join(state.split())[:500])


def c06(run):
    need(run)
    v = print_vectors(run, run.pick(13, 1))
    run.replay("trip/graphs", ["replay-print", "trip", v, run.path("rep.json")], run.path("rep.json"))
    pv = run.path("pieces.nd")
    run.model("texts", "PieceEnum", dict(CFG=run.put("pieces.json", configs.piece_configs(run.tier)), OUT=pv))
    run.replay("trip/texts", ["trip-docs", pv, run.path("rep.json")], run.path("rep.json"))
    n, part = run.pick(2500, 40000), 0
    while n > 0:
        k = min(n, 2500)
        t = run.path("trip-%d.nd" % part)
        if not run.gvh(["gen-trip", run.seed * 1000 + part, k, t]):
            return
        run.validate("save and load histories/%d" % part, "TripTrace", t, describe=session_of)
        os.remove(t)
        n -= k
        part += 1
    for kind in ("structure", "ids"):
        pump(run, kind, run.pick(20000, 200000), how="trip")


def session_of(rec, state):
    return "call by call: " + " ".join(state.split())[:800]


def sessions(run, kind, n, mode):
    part = 0
    while n > 0:
        k = min(n, 2500)
        t = run.path("life-%s-%d.nd" % (kind, part))
        if not run.gvh(["gen-session", kind, run.seed * 1000 + part, k, t]):
            return
        run.validate("contexts/%s/%d" % (kind, part), "SessionTrace", t, dict(MODE=mode), describe=session_of)
        if part == 0:
            run.sample(t, 1, lambda v: [dict(op=o["op"], text=text(o["text"])) for o in v["ops"]][:8])
        os.remove(t)
        n -= k
        part += 1


def c07(run):
    need(run)
    v = print_vectors(run, run.pick(13, 1))
    run.replay("layout/graphs", ["replay-print", "layout", v, run.path("rep.json")], run.path("rep.json"),
               describe=lambda b: "expected %r, printed %r" % (b["expected"], b["printed"]))
    sessions(run, "layout", run.pick(2000, 30000), "layout")
    t = run.path("scale.nd")
    if run.gvh(["gen-scale", run.seed, run.pick(100000, 1000000), t]):
        run.validate("contexts/every magnitude", "SessionTrace", t, dict(MODE="layout"), describe=session_of)


def c08(run):
    need(run)
    c = run.put("sess.json", configs.session_config(run.tier))
    v = run.path("sess.nd")
    run.model("histories", "SessionEnum", dict(CFG=c, OUT=v))
    run.replay("contexts/histories", ["replay-session", c, v, run.path("rep.json")], run.path("rep.json"),
               describe=lambda b: "fresh context %r, this context %r" % (b["fresh context"], b["this context"]))
    sessions(run, "life", run.pick(3000, 40000), "state")


def c09(run):
    need(run)
    sessions(run, "printers", run.pick(3000, 40000), "layout")


# ---------------------------------------------------------------- running dot

def c10(run):
    need(run, "gvx", "fakedot")
    run.model("calls at the same time", "ExecModel")
    outs = [("empty", 0), ("text", 3000), ("bin", 700), ("utf8", 5000), ("crlf", 2), ("nl", 1), ("bin", 70000), ("text", 1200000)]
    small = outs[:5]
    errs = [("empty", 0), ("text", 60), ("bin", 3000), ("text", 200000), ("nl", 1)]
    ends = [execs.end(h, o, e, w) for h in execs.HOWS for o in small for e in errs[:3] for w in ("out",)]
    ends += [execs.end(h, o, e, w) for h in ("exit0", "exit1", "signal9") for o in outs for e in errs for w in ("out", "err", "mix")]
    said = [execs.end(h, o, e) for h in execs.HOWS for o in (("empty", 0), ("text", 100)) for e in execs.SAID]
    said += [execs.end("exit0", e, ("empty", 0)) for e in execs.SAID]
    # however outputs begin and end
    said += [execs.end("exit0", e, ("empty", 0)) for e in execs.SHAPES] + [execs.end(h, ("empty", 0), e) for h in ("exit1", "signal9") for e in execs.SHAPES[::run.pick(5, 1)]]
    cases = execs.enumerate_cases(run, "ends", [execs.cfg(ends=ends + said), execs.cfg(ends=ends + said, apis=("exec",), every=run.pick(4, 1), seed=run.seed)])
    cases += execs.enumerate_cases(run, "faults", [execs.cfg(args=execs.FEW, most=1, texts=execs.TEXTS[:3], faults=("nodir", "nodot", "noexec", "badarg"),
                                                             apis=("exec_dot", "exec"))])
    if run.thorough():
        hows = ["exit%d" % k for k in range(256)] + ["signal%d" % k for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 24, 25, 31)]
        cases += execs.enumerate_cases(run, "all statuses", [execs.cfg(ends=[execs.end(h, o, e) for h in hows for o in outs[:4] for e in errs[:2]])])
        sizes = sorted({b + d for b in (0, 1, 4096, 8192, 16384, 32768, 65536, 131072, 1 << 20, 1 << 23) for d in (-1, 0, 1) if b + d >= 0})
        cases += execs.enumerate_cases(run, "sizes", [execs.cfg(ends=[execs.end(h, (k, n), (k2, m), w) for h in ("exit0", "exit9") for n in sizes for m in (0, 65537)
                                                                      for k in ("bin", "text") for k2 in ("bin", "utf8") for w in ("out", "err", "mix")])])
    # outputs of many megabytes
    cases += execs.enumerate_cases(run, "large outputs", [execs.cfg(ends=[execs.end(h, o, e, "mix") for m in run.pick((5, 18), (5, 18, 40, 70, 140)) for h, o, e in
                                                                          [("exit0", ("bin", m * 1000000 + 7), ("text", 50)), ("exit1", ("text", 9), ("text", m * 1000000 + 3)),
                                                                           ("exit0", ("text", m * 1000000), ("text", 300000))]])])
    execs.play(run, "outcomes", cases, "outcome")
    full = execs.enumerate_cases(run, "full disk", [execs.cfg(texts=[dict(kind="big", n=3000000)], faults=("nowrite",), apis=("exec_dot",))])
    execs.play(run, "outcomes on a full disk", full, "outcome", limit=1000)
    execs.play(run, "outcomes of two calls", execs.schedules(run, 2), "outcome")
    if run.thorough():
        execs.play(run, "outcomes of three calls", execs.schedules(run, 3), "outcome")


def c11(run):
    need(run, "gvx", "fakedot")
    run.model("calls at the same time", "ExecModel")
    tmps = ("plain", "blank", "uni", "raw")
    cases = execs.enumerate_cases(run, "argument lists", [
        execs.cfg(args=execs.ARGS, most=2),
        execs.cfg(args=execs.FEW, most=run.pick(3, 5)),
        execs.cfg(args=execs.ARGS, most=run.pick(2, 3), every=run.pick(7, 3), seed=run.seed, apis=("exec_dot", "exec"))], tmps)
    cases += execs.enumerate_cases(run, "texts", [
        execs.cfg(args=execs.FEW, most=1, texts=execs.TEXTS, ends=(execs.NONE, execs.end("exit1", ("text", 5), ("text", 5)), execs.end("signal9", ("text", 5), ("text", 5)))),
        execs.cfg(args=execs.ARGS[:run.pick(12, 20)], most=run.pick(1, 2), apis=("exec",)),
        execs.cfg(args=execs.FEW, most=1, texts=execs.TEXTS[:2], faults=("nodir", "nodot", "noexec", "badarg"))], tmps)
    # however texts begin and end
    shaped = execs.enumerate_cases(run, "shaped texts", [execs.cfg(texts=[dict(kind="shaped", n=k) for k in range(len(execs.SHAPED))])], tmps)
    cases += [dict(c, plans=[dict(p, text=execs.SHAPED[p["text"]["n"]]) for p in c["plans"]]) for c in shaped]
    # each argument on its own, whatever it is spelled like
    cases += execs.enumerate_cases(run, "spellings", [execs.cfg(args=[execs.custom(v) for v in execs.SPELLED] + [execs.output(v) for v in execs.SPELLED], most=1)], tmps)
    # many arguments, with repetitions
    cases += execs.enumerate_cases(run, "long argument lists", [execs.cfg(args=execs.ARGS, cycles=[(n, k) for n in (7, 17, 33, 65, 129, 257, 1025) for k in (0, 1, 5, 7)],
                                                                          apis=("exec_dot", "exec"))], tmps)
    # dot runs once however it ends and whatever it says
    cases += execs.enumerate_cases(run, "ends", [execs.cfg(ends=[
        execs.end(h, o, e) for h in execs.HOWS for o in (("empty", 0), ("text", 40)) for e in [("empty", 0), ("text", 60), ("bin", 300)] + execs.SAID],
        apis=("exec_dot", "exec"), every=run.pick(2, 1), seed=run.seed)], tmps)
    execs.play(run, "runs of dot", cases, "run")


def c12(run):
    need(run, "gvx", "fakedot")
    run.model("calls at the same time", "ExecModel")
    execs.play(run, "files of two calls", execs.schedules(run, 2), "files")
    three = execs.schedules(run, 3)
    execs.play(run, "files of three calls", three if run.thorough() else three[run.seed % 5::5], "files")
    execs.storm(run, "files of a storm", run.pick(6, 60), 4, 3, "files")
    execs.storm(run, "files of calls that begin together", run.pick(25, 150), 8, 2, "files", together=True)
    if run.thorough():
        execs.storm(run, "files of a big storm", 30, 12, 4, "files")
    full = execs.enumerate_cases(run, "full disk", [execs.cfg(texts=[dict(kind="big", n=3000000)], faults=("nowrite",), apis=("exec_dot",))])
    execs.play(run, "files on a full disk", full, "files", limit=1000)
    ends = execs.enumerate_cases(run, "ends", [execs.cfg(ends=[execs.end(h, o, ("bin", 100)) for h in execs.HOWS for o in (("empty", 0), ("text", 100000))],
                                                         texts=execs.TEXTS[:5]),
                                               execs.cfg(ends=[execs.end(h, o, e) for h in execs.HOWS for o in (("empty", 0), ("text", 100)) for e in execs.SAID],
                                                         apis=("exec_dot", "exec"), every=run.pick(2, 1), seed=run.seed),
                                               execs.cfg(texts=execs.TEXTS[:3], faults=("nodir", "nodot", "noexec", "badarg"), apis=("exec_dot", "exec"))],
                                 ("plain", "blank", "uni", "raw"))
    execs.play(run, "files of single calls", ends, "files")


def c16(run):
    need(run, "gvx", "fakedot")
    most = [execs.cfg(args=execs.CHOICES, most=1), execs.cfg(args=execs.CHOICES, most=2, every=run.pick(9, 1), seed=run.seed)]
    cases = execs.enumerate_cases(run, "choices", most, convs=(False,))
    # the same again, converted into arguments
    cases += [dict(c, plans=[dict(p, conv=True) for p in c["plans"]]) for c in cases]
    execs.play(run, "choices", cases, "words")


# ---------------------------------------------------------------- attributes

def c13(run):
    need(run)
    err = core.build(("attrs",))
    if err:
        run.violation("the typed attributes are not there as documented: %s" % " | ".join(l for l in err.split("\n") if l.startswith("error"))[:600], dict(compiler=err[-6000:]))
        return
    v = run.path("attrs.nd")
    run.model("attributes", "AttrCases", dict(CFG=run.put("values.json", configs.attr_values(run.tier)), OUT=v))
    rep = run.path("rep.json")
    if not run.gvh([v, rep], exe="attrs"):
        return
    r = json.load(open(rep))
    run.traces += r["cases"]
    run.note("uses of attributes", cases=r["cases"], bad=len(r["bad"]))
    run.sample(v, 3, lambda x: {k: readable(x["case"][k]) for k in ("how", "fn", "own", "key", "val")})
    listed = run.findings()
    new = []
    for b in r["bad"]:
        if b["finding"] in listed:
            run.known_finding(b["finding"], listed[b["finding"]])
        else:
            new.append(b)
    for b in new[:5]:
        run.violation("%s %s%s given %r: expected %s, %s: %s" % (b["how"], b["group"] and b["group"] + "Attributes::", b["fn"], b["given"], b["expected"], b["what"], b["got"]), b)


# ---------------------------------------------------------------- builders

def c14(run):
    need(run)
    v = run.path("terms.nd")
    run.model("uses of builders", "BuildEnum", dict(CFG=run.put("build.json", configs.build_config(run.tier, run.seed)), OUT=v), workers=1)
    cases = []
    for l in open(v):
        c = json.loads(l)
        cases.append(json.loads(c) if isinstance(c, str) else c)
    cases.sort(key=lambda c: json.dumps(c["term"], sort_keys=True))
    t0 = time.time()
    err = builders.program([c["term"] for c in cases], run.path("terms"), configs.VARS)
    if err:
        run.violation("a documented use of a builder does not compile: " + core.first_error(err), dict(compiler=err[-8000:]))
    else:
        run.note("program of the uses", terms=len(cases), compile_s=round(time.time() - t0, 1))
        got = {}
        for p in range(builders.PARTS):
            out = subprocess.run([core.bin_path("part%d" % p)], capture_output=True, text=True, timeout=300, cwd=run.work)
            for l in out.stdout.splitlines():
                r = json.loads(l)
                got[r["n"]] = r
        bad = 0
        for i, c in enumerate(cases):
            r = got.get(i)
            if r is None or r["val"] != c["val"] or r["ticks"] != c["ticks"]:
                bad += 1
                if bad <= 3:
                    run.violation("%s: expected %s, made %s" % (builders.source(c["term"]), readable(c["val"]), r and readable(r["val"])) +
                                  ("" if r is None or r["ticks"] == c["ticks"] else "; arguments evaluated %d times instead of %d" % (r["ticks"], c["ticks"])),
                                  dict(source=builders.source(c["term"]), expected=c, made=r))
        run.traces += len(cases)
        run.note("elements made", cases=len(cases), bad=bad)
        run.samples += [dict(use=builders.source(c["term"])) for c in cases[:: max(1, len(cases) // 4)]]
    c = run.put("hist.json", configs.build_hist_config(run.tier))
    h = run.path("hist.nd")
    run.model("histories of additions", "BuildHist", dict(CFG=c, OUT=h), workers=1)
    run.replay("additions", ["build-hist", c, h, run.path("rep.json")], run.path("rep.json"), describe=lambda b: "%s: %s" % (b["ops"], b["what"]))
    q = run.path("eq.nd")
    run.model("pairs of elements", "BuildEq", dict(OUT=q), workers=1)
    run.replay("equality", ["build-eq", q, run.path("rep.json")], run.path("rep.json"), describe=lambda b: b["what"])


# ---------------------------------------------------------------- anonymous parts

def anon_of(rec, state):
    return "documents %s; %s" % (rec["docs"], " ".join(state.split()))


def c15(run):
    need(run)
    v = run.path("anon.nd")
    run.model("texts with anonymous parts", "PieceEnum", dict(CFG=run.put("anon.json", configs.anon_config(run.tier)), OUT=v))
    run.replay("parse/texts with anonymous parts", ["replay-docs", v, run.path("rep.json")], run.path("rep.json"),
               describe=lambda b: "text %r: specification %s, parse %s" % (b["doc"], b["specification"], b["result"]))
    h = run.path("hist.nd")
    run.model("threads that parse", "AnonModel", dict(OUT=h), cfg=run.pick("AnonModel", "AnonModel4"))
    run.model("histories of parses", "AnonModel", dict(OUT=h), cfg="AnonHist")
    t = run.path("anon-t.nd")
    if run.gvh(["gen-anon", v, h, run.seed, t]):
        run.validate("histories of parses", "AnonTrace", t, describe=anon_of)
        run.sample(t, 1, lambda v: dict(docs=v["docs"], ops=[(o["t"], o["d"], o["names"]) for o in v["ops"]]))
    if run.gvh(["storm-anon", run.seed, run.pick(40, 400), 0, t]):
        run.validate("parses at the same time", "AnonTrace", t, describe=anon_of)
    if run.gvh(["storm-anon", run.seed, 0, run.pick(300000, 900000), t]):
        run.validate("many names", "AnonTrace", t, describe=anon_of)


CHECKS = {
    "C01": ("model_checking", c01),
    "C02": ("model_checking", c02),
    "C03": ("model_checking", c03),
    "C04": ("model_checking", c04),
    "C05": ("model_checking", c05),
    "C06": ("model_checking", c06),
    "C07": ("model_checking", c07),
    "C08": ("model_checking", c08),
    "C09": ("model_checking", c09),
    "C10": ("model_checking", c10),
    "C11": ("model_checking", c11),
    "C12": ("model_checking", c12),
    "C13": ("model_checking", c13),
    "C14": ("model_checking", c14),
    "C15": ("model_checking", c15),
    "C16": ("model_checking", c16),
}
