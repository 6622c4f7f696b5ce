"""Cases for exec and their run against the stand-in dot."""
import json
import os
import shutil
import subprocess

import core

NONE = dict(how="exit0", out=dict(kind="text", len=30), err=dict(kind="empty", len=0), order="out")


def custom(v):
    return dict(k="custom", v=v)


def output(v):
    return dict(k="output", v=v)


ARGS = [custom(v) for v in ["", " ", "-Gname=a b", "-Nlabel=\"x y\"", "a'b", "$(echo hi) `id`", "*", "; ls > x", "-", "--", "-Tpng", "é日😀",
                            "a\nb", "a\\b\t", "{a,b}", "%s%20", "-v"]] + \
    [output(v) for v in ["", "out.svg", "a b'\".svg", "-x", "/é/日.png"]] + \
    [dict(k="layout", v="Neato"), dict(k="layout", v="Dot"), dict(k="format", v="Svg"), dict(k="format", v="PlainExt")]
FEW = [custom(""), custom("-Gname=a b"), output("a b.svg"), dict(k="layout", v="Neato"), dict(k="format", v="Svg")]

# every text of up to two of these pieces as an argument
PIECES = ["-", "./", "~", "/", " ", "\"", "'", "\\", "=", "o", "K", "T", "png", "\n", "$HOME", "%", "\u00e9", ":", ".", "..", "+", "@", "#", "0", "?", "\t", "-o", "!"]
SPELLED = sorted({a + b for a in PIECES + [""] for b in PIECES + [""]})

TEXTS = [dict(kind="lit", t="graph { a -- b }"), dict(kind="lit", t=""), dict(kind="lit", t="x\r\n\r\n\ty\u0000z\ufeff"), dict(kind="lit", t="no graph at all {"),
         dict(kind="lit", t="\n"), dict(kind="uni", n=1), dict(kind="uni", n=3000), dict(kind="big", n=3000000)]
T0 = TEXTS[:1]
# however texts begin and end
SHAPED = [dict(kind="lit", t=a + b + c) for a in ["", "\ufeff", "\n", "\r\n", " ", "\u0000", "#!x\n", "// x\n", "/*", "\t\t"] for b in ["graph { a }", "a\n\n\nb  c\r\nc\td\u0000e\u001af\re\u0301", ""]
          for c in ["", "\n", "\n\n", "\r\n", " ", "\u0000", "\u001a", "//x", "\\", "\\\n", " \n ", "}", "\u2028", "\r", "\ufeff"]]
HOWS = ["exit0", "exit1", "exit2", "exit3", "exit127", "exit255", "signal15", "signal9", "signal11", "signal6"]
LAYOUTS = "Dot Neato Twopi Circo Fdp Asage Patchwork Sfdp".split()
FORMATS = """Bmp Cgimage Canon Dot Gv Xdot Xdot12 Xdot14 Eps Exr Fig Gd Gd2 Gif Gtk Ico Cmap Ismap Imap Cmapx ImapNp CmapxNp Jpg Jpeg
 Jpe Jp2 Json Json0 DotJson XdotJson Pdf Pic Pct Pict Plain PlainExt Png Pov Ps Ps2 Psd Sgi Svg Svgz Tga Tif Tiff Tk Vml Vmlz Vrml
 Vbmp Webp Xlib X11""".split()
SAID = [("said", k) for k in range(16)]
# every beginning with every end and middle, see outs.rs
SHAPES = [("shape", k) for k in range(16 * 14 * 3)]
CHOICES = [dict(k="layout", v=v) for v in LAYOUTS] + [dict(k="format", v=v) for v in FORMATS]


def cfg(args=(), most=0, texts=T0, ends=(NONE,), faults=("none",), apis=("exec_dot",), every=1, seed=0, cycles=()):
    return dict(args=list(args) or [custom("")], max=most, cycles=[list(y) for y in cycles], texts=list(texts), ends=list(ends), faults=list(faults), apis=list(apis), every=every, seed=seed)


def end(how, out, err, order="out"):
    return dict(how=how, out=dict(kind=out[0], len=out[1]), err=dict(kind=err[0], len=err[1]), order=order)


def case(c, tmp="plain", conv=False):
    return dict(plans=[dict(c, tmp=tmp, conv=conv)], sched=[dict(a="start", c=1), dict(a="end", c=1)])


def vectors(path):
    seen = set()
    for l in open(path):
        if l not in seen:
            seen.add(l)
            yield json.loads(json.loads(l))


def enumerate_cases(run, name, cfgs, tmps=("plain",), convs=(False, True)):
    v = run.path("cases.nd")
    if os.path.exists(v):
        os.remove(v)
    run.model(name, "ExecCases", dict(CFG=run.put("exec.json", cfgs), OUT=v), workers=1 if any(c["cycles"] for c in cfgs) else None)
    out = []
    for i, c in enumerate(vectors(v)):
        c = c["case"]
        if c["api"] == "exec":
            c["text"] = dict(kind="graph", n=i + 1)
        out.append(case(c, tmps[i % len(tmps)], convs[i // len(tmps) % len(convs)]))
    return out


def schedules(run, n):
    v = run.path("sched%d.nd" % n)
    run.model("schedules of %d calls" % n, "ExecModel", dict(OUT=v), cfg="ExecSched%d" % n)
    out = []
    for k, s in enumerate(vectors(v)):
        plans = []
        for i, kind in enumerate(s["kind"]):
            how = dict(ok="exit0", fail="exit1", sig="signal9").get(kind, "exit0")
            size = (1, 300, 30000)[k % 3]
            plans.append(dict(api="exec_dot", args=[custom("-Gn=%d" % i)], text=dict(kind="uni", n=2 * size if s["same"] else (i + 1) * size),
                              fault=kind if kind in ("nodir", "nodot", "badarg") else "none", tmp=("plain", "blank", "uni", "raw")[k % 4],
                              end=end(how, (("text", "bin", "utf8")[(k + i) % 3], 100 * (i + 1) + k % 7), ("text", 40 + i), ("out", "err", "mix")[k % 3])))
        out.append(dict(plans=plans, sched=s["sched"]))
    return out


def _start(run, exe, args, k, limit=None):
    scratch = run.path("x%d" % k)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    e = dict(os.environ)
    e["GVH_INFLIGHT"] = run.path("inflight-%d" % k)
    if os.path.exists(e["GVH_INFLIGHT"]):
        os.remove(e["GVH_INFLIGHT"])
    e["TMPDIR"] = scratch
    out = run.path("recs-%d.nd" % k)
    cmd = [core.bin_path("gvx")] + args + (["-"] if limit else [out]) + [scratch, core.bin_path("fakedot")]
    # no cores of killed processes; a limit on what files may hold, if one is asked for
    pre = "ulimit -c 0; " + ("ulimit -f %d; trap '' XFSZ; " % limit if limit else "")
    p = subprocess.Popen(["bash", "-c", pre + 'exec "$@"', "x"] + cmd, cwd=scratch, env=e, stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE if limit else subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return dict(p=p, out=out, scratch=scratch, inflight=e["GVH_INFLIGHT"], cmd=cmd, limit=limit)


def _collect(run, jobs, name):
    """Records of all jobs in one file, None if a call never came back."""
    merged = run.path("recs.nd")
    ok = True
    with open(merged, "w") as f:
        for j in jobs:
            try:
                o, _ = j["p"].communicate(timeout=600)
            except subprocess.TimeoutExpired:
                j["p"].kill()
                raise core.ToolError("runs of exec take too long: %s" % j["cmd"])
            rc = j["p"].returncode
            if rc == 0:
                if j["limit"]:
                    f.write(o.decode())
                else:
                    shutil.copyfileobj(open(j["out"]), f)
                    os.remove(j["out"])
            elif rc == 3 and os.path.exists(j["inflight"]):
                doc = open(j["inflight"], errors="replace").read()
                run.violation("%s: a call of exec does not return: %s" % (name, doc[:300]), dict(inflight=doc))
                ok = False
            elif rc < 0:
                run.violation("%s: the process died with signal %d in a call of exec" % (name, -rc), dict(command=j["cmd"]))
                ok = False
            else:
                raise core.ToolError("exec harness failed (%d): %s" % (rc, j["cmd"]))
            shutil.rmtree(j["scratch"], ignore_errors=True)
    return merged if ok else None


def describe(rec, state):
    s = " ".join(state.split())
    return "calls %s; %s" % (json.dumps(rec["plans"], ensure_ascii=False)[:300], s[:500])


def play(run, name, cases, mode, limit=None):
    """Run the cases against the real code and let TLC judge what happened."""
    if not cases:
        return
    jobs = []
    n = 1 if limit else min(core.CORES, max(1, len(cases) // 4))
    for k in range(n):
        part = cases[k::n]
        p = run.path("cases-%d.nd" % k)
        with open(p, "w") as f:
            for c in part:
                f.write(json.dumps(c) + "\n")
        jobs.append(_start(run, "gvx", ["run", p], k, limit))
    t = _collect(run, jobs, name)
    if t:
        run.validate(name, "ExecTrace", t, dict(MODE=mode), describe=describe)
        run.sample(t, 1, lambda v: dict(plans=v["plans"], events=[o["ev"] for o in v["ops"]]))


def storm(run, name, rounds, threads, calls, mode, together=False):
    jobs = [_start(run, "gvx", ["storm", str(run.seed * 100 + k), str(rounds), str(threads), str(calls), "together" if together else "apart"], k)
            for k in range(4)]
    t = _collect(run, jobs, name)
    if t:
        run.validate(name, "ExecTrace", t, dict(MODE=mode), describe=describe)
