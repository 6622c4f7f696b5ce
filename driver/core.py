"""Building the harness, running TLC and the harness, reporting."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GVH_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4
REPO_CRATES = ["graphviz-rust", "dot-structures", "dot-generator", "into-attr", "into-attr-derive"]


class ToolError(Exception):
    pass


class Violation(Exception):
    """What the code does is not what the specification says."""

    def __init__(self, what, data):
        super().__init__(what)
        self.what = what
        self.data = data


# ---------------------------------------------------------------- building

def cargo_env():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], capture_output=True).stdout
    env = dict(x.split("=", 1) for x in out.decode().split("\0") if "=" in x)
    env["CARGO_TARGET_DIR"] = TARGET
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def source_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".pest", ".lock")):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def cargo(args, crate="harness", timeout=700, env=None):
    e = cargo_env()
    e.update(env or {})
    return subprocess.run(["cargo"] + args, cwd=os.path.join(VERIF, crate), env=e, capture_output=True, text=True, timeout=timeout)


def first_error(err):
    lines = err.split("\n")
    for i, l in enumerate(lines):
        if l.startswith("error"):
            return " | ".join(x.strip() for x in lines[i:i + 8])[:700]
    return err[-700:]


def build(bins=("gvh",)):
    """Build the harness from /repo's working tree as it is now."""
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, ".source-hash")
    now = source_hash()
    if not os.path.exists(stamp) or open(stamp).read() != now:
        # do not rely on time stamps
        for c in REPO_CRATES + ["gvh"]:
            cargo(["clean", "--offline", "-p", c])
        open(stamp, "w").write(now)
    args = ["build", "--offline"]
    for b in bins:
        args += ["--bin", b]
    r = cargo(args)
    if r.returncode != 0:
        return r.stderr
    return None


def bin_path(name):
    return os.path.join(TARGET, "debug", name)


# ---------------------------------------------------------------- a run

class Run:
    def __init__(self, prop, level, tier, seed):
        self.prop, self.level, self.tier, self.seed = prop, level, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, "replays")
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.parts = []
        self.violations = []
        self.known = []
        self.assumptions = []
        self.n = 0

    def path(self, name):
        return os.path.join(self.work, name)

    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick

    def put(self, name, data):
        p = self.path(name)
        json.dump(data, open(p, "w"))
        return p

    def note(self, part, **kw):
        kw["part"] = part
        kw["at_s"] = round(time.time() - self.t0, 1)
        self.parts.append(kw)
        print("  %s: %s" % (part, ", ".join("%s=%s" % (k, v) for k, v in kw.items() if k != "part")), flush=True)

    def violation(self, what, data):
        os.makedirs(self.replays, exist_ok=True)
        self.n += 1
        p = os.path.join(self.replays, "%s-%d.json" % (self.prop, self.n))
        json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, what=what, data=data), open(p, "w"), indent=1, ensure_ascii=False, default=str)
        self.violations.append((what, p))
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        print("  " + what[:400].replace("\n", "\\n"), flush=True)

    def findings(self):
        """Defects recorded in known_findings.txt: "known: property=Cxx [key] what fails"."""
        out = {}
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(C\d+) \[(.*?)\] (.*)", l)
            if m and m.group(1) == self.prop:
                out[m.group(2)] = m.group(3)
        return out

    def known_finding(self, key, what):
        if key not in self.known:
            self.known.append(key)
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, key, what), flush=True)

    # ---- TLC ----
    def tlc(self, module, env=None, timeout=800, workers=None, heap="14g", cfg=None, extra=()):
        meta = self.path("meta-%s-%d" % (module, int(time.time() * 1000)))
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + self.work, "-Xss256m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE",
               "-workers", str(workers or CORES), "-metadir", meta, "-config", (cfg or module) + ".cfg", *extra, module]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC ran out of time on " + module)
        shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        res = dict(out=out, wall=round(time.time() - t, 1))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            res["generated"], res["distinct"] = int(m[-1][0]), int(m[-1][1])
            self.transitions += res["generated"]
            self.states += res["distinct"]
        m = re.search(r"Error: (Invariant|Temporal property|Action property|Temporal properties)\b[^\n]*", out)
        if "HARNESS" in out:
            raise ToolError("harness and specification disagree on the bookkeeping:\n" + out[-3000:])
        if m and ("violated" in m.group(0)):
            res["violated"] = m.group(0)
            blocks = re.split(r"\nState \d+: ?", out)
            res["state"] = blocks[-1].split("\n\n")[0] if len(blocks) > 1 else out[-3000:]
            return res
        if "Model checking completed. No error has been found." not in out:
            raise ToolError("TLC failed on %s:\n%s" % (module, out[:2500] + "\n...\n" + out[-1500:] + r.stderr[-500:]))
        return res

    def model(self, name, module, env=None, **kw):
        """Check a model. A violation here is a mistake in the specification."""
        out = (env or {}).get("OUT")
        before = os.path.getsize(out) if out and os.path.exists(out) else 0
        r = self.tlc(module, env, **kw)
        if "violated" not in r and kw.get("workers") != 1 and out and os.path.exists(out):
            with open(out, "rb") as f:
                f.seek(before)
                longest = max(map(len, f), default=0)
            if longest > 8000:
                # such lines are written in parts, which those of other workers may come between
                os.truncate(out, before)
                self.transitions -= r["generated"]
                self.states -= r["distinct"]
                r = self.tlc(module, env, **dict(kw, workers=1))
        if "violated" in r:
            raise ToolError("the specification itself breaks %s:\n%s" % (r["violated"], r["state"][:3000]))
        self.note(name, states=r["distinct"], transitions=r["generated"], tlc_s=r["wall"])
        return r

    def validate(self, name, module, trace, env=None, describe=None, count=None, **kw):
        """Validate recorded traces of the real code, one per line of the file."""
        n = sum(1 for _ in open(trace))
        if n == 0:
            return {}
        done = self.path("done-%s.csv" % re.sub(r"\W", "_", name))
        if os.path.exists(done):
            os.remove(done)
        e = dict(env or {})
        e.update(TRACE=trace, OUT=done)
        r = self.tlc(module, e, **kw)
        if "violated" in r:
            m = re.search(r"/\\ rec = (\d+)", r["state"])
            rec = int(m.group(1)) if m else 0
            line = None
            for i, l in enumerate(open(trace), 1):
                if i == rec:
                    line = json.loads(l)
            what = describe(line, r["state"]) if describe and line else "recorded behaviour is not one of the specification"
            self.violation("%s: %s" % (name, what), dict(module=module, env=env, record=line, state=r["state"][:4000]))
            return r
        ends = {}
        if os.path.exists(done):
            for l in open(done):
                k, v = l.strip().split(",")
                ends[int(k)] = v
        if len(ends) != n:
            raise ToolError("%s: only %d of %d traces reached their end" % (name, len(ends), n))
        tally = {}
        for v in ends.values():
            tally[v] = tally.get(v, 0) + 1
        self.traces += n - tally.get("uns", 0)
        self.note(name, traces=n, states=r["distinct"], ends=tally, tlc_s=r["wall"])
        r["tally"] = tally
        return r

    # ---- harness ----
    def gvh(self, args, timeout=600, env=None, exe="gvh"):
        """Run the harness. False if a call of the code under test hung or died (reported)."""
        inflight = self.path("inflight")
        e = dict(os.environ)
        e.update(env or {})
        e["GVH_INFLIGHT"] = inflight
        e["TMPDIR"] = self.work
        cmd = [bin_path(exe)] + [str(a) for a in args]
        try:
            r = subprocess.run(cmd, env=e, cwd=self.work, capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("harness ran out of time: " + " ".join(cmd))
        if r.returncode == 0:
            return True
        if r.returncode == 3 and os.path.exists(inflight):
            doc = open(inflight, errors="replace").read()
            self.violation("a call does not return: " + doc[:300], dict(input=doc, command=args))
            return False
        if r.returncode < 0:
            # the process died: find out in which call
            e["GVH_TRACE"] = "1"
            subprocess.run(cmd, env=e, cwd=self.work, capture_output=True, timeout=timeout)
            docs = [open(os.path.join(self.work, f), errors="replace").read() for f in sorted(os.listdir(self.work)) if f.startswith("inflight.")]
            self.violation("the process died with signal %d in a call" % -r.returncode, dict(inputs=docs, command=args))
            return False
        raise ToolError("harness failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stderr.decode(errors="replace")[-2000:]))

    def replay(self, name, args, report, limit=3, describe=None, **kw):
        """Run a replay and take over its report."""
        if os.path.exists(report):
            os.remove(report)
        if not self.gvh(args, **kw):
            return None
        rep = json.load(open(report))
        self.traces += rep["cases"]
        self.note(name, cases=rep["cases"], bad=len(rep["bad"]))
        for b in rep["bad"][:limit]:
            what = describe(b) if describe else json.dumps(b, ensure_ascii=False)[:300]
            self.violation("%s: %s" % (name, what), b)
        return rep

    def sample(self, path, n=2, f=None):
        """A few lines of a file of cases, as samples for the evidence."""
        if not os.path.exists(path):
            return
        lines = []
        with open(path) as h:
            for i, l in enumerate(h):
                if i % 997 == 3 or i < 1:
                    lines.append(l)
                if len(lines) >= n:
                    break
        for l in lines:
            v = json.loads(l)
            if isinstance(v, str):
                v = json.loads(v)
            self.samples.append(f(v) if f else readable(v))

    # ---- the end ----
    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples[:8] or ["none"], parts=self.parts, known_findings_seen=self.known)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + ".json"), "w"), indent=1, ensure_ascii=False)
        if os.environ.get("GVH_KEEP") is None:
            shutil.rmtree(self.work, ignore_errors=True)
        print("%s %s: %d states, %d transitions, %d cases of the real code, %d violations, %.0f s" %
              (self.prop, self.tier, self.states, self.transitions, self.traces, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def text(codes):
    return "".join(chr(c) for c in codes)


def readable(v):
    """codes to text, for people"""
    if isinstance(v, list):
        if v and all(isinstance(c, int) for c in v):
            try:
                return text(v)
            except ValueError:
                return v
        return [readable(x) for x in v[:12]]
    if isinstance(v, dict):
        return {k: readable(x) for k, x in v.items()}
    return v
