"""Builds main.rs against the repository in the current directory and runs it."""
import os
import shutil
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    os.makedirs(d + "/src")
    os.makedirs(d + "/tmp")
    shutil.copy(here + "/main.rs", d + "/src/main.rs")
    if os.path.exists(repo + "/Cargo.lock"):
        shutil.copy(repo + "/Cargo.lock", d + "/Cargo.lock")
    with open(d + "/Cargo.toml", "w") as f:
        f.write("""[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
graphviz-rust = {{ path = "{0}" }}
dot-structures = "0.1.2"
dot-generator = "0.2.0"
into-attr = "0.1.1"
into-attr-derive = "0.2.1"
[patch.crates-io]
dot-structures = {{ path = "{0}/dot-structures" }}
dot-generator = {{ path = "{0}/dot-generator" }}
into-attr = {{ path = "{0}/into-attr" }}
into-attr-derive = {{ path = "{0}/into-attr-derive" }}
[profile.dev]
debug = 0
[workspace]
""".format(repo))
    env = dict(os.environ)
    if os.path.exists("/opt/vp/env.sh"):
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], capture_output=True).stdout
        env = dict(x.split("=", 1) for x in out.decode().split("\0") if "=" in x)
    env["CARGO_TARGET_DIR"] = d + "/target"
    r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=env)
    if r.returncode != 0:
        sys.exit(r.returncode)
    env["TMPDIR"] = d + "/tmp"
    r = subprocess.run([d + "/target/debug/demo"], cwd=d, env=env, timeout=200)
    sys.exit(0 if r.returncode == 0 else 1)
