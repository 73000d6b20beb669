#!/usr/bin/env python3
"""Turn bug specifications into seeded/<id>/ directories, keeping only those which build, pass the
repository's stable tests and are shown by their demonstration.

  seed.py SPEC.py [id ...]

A spec file is Python defining SEEDS = [dict(id, prop, edits=[(file, old, new)], deps=[crate], main=<rust>,
needs, breaks, release=False)].  Works in a scratch clone under /tmp/seedwork.
"""
import json, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
REPO = W + "/repo"
BASE = "9dac5b9"

DEMO = '''#!/bin/bash
# Builds the small program beside this script against the repository in the current directory and
# runs it: exit 0 when the behaviour is right, non-zero when it is not.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
%s
EOF
cd "$d" || exit 3
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cargo build -q --offline%s || exit 3
timeout 120 "$d/target/%s/demo"
'''


def sh(cmd, cwd=REPO, timeout=900, env=None):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=W + "/target")
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=e)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def prepare():
    if not os.path.exists(REPO):
        os.makedirs(W, exist_ok=True)
        subprocess.run(["git", "clone", "-q", "/repo", REPO], check=True)
    subprocess.run("git checkout -q -- . && git pull -q", shell=True, cwd=REPO, check=True)
    shutil.copy("/repo/Cargo.lock", REPO + "/Cargo.lock")


def tests_ok():
    rc, o = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", timeout=600)
    open(W + "/log", "w").write(o)
    sh("python3 /opt/vp/results.py %s/res.json cargo:%s/log" % (W, W))
    try:
        res = json.load(open(W + "/res.json"))
    except Exception:
        return False, "no results: " + o[-800:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base["stable"] if isinstance(base, dict) and "stable" in base else base
    names = stable if isinstance(stable, list) else [k for k in stable]
    passed = set(res.get("passed", []))
    bad = [n for n in names if n not in passed]
    return not bad, bad[:5]


def one(s):
    d = os.path.join(ROOT, "seeded", s["id"])
    sh("git checkout -q -- .")
    tmp = W + "/demo-" + s["id"]
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    deps = "\n".join(s.get("dep_lines", ['numeric-%s = { path = "$repo/crates/%s"%s }' % (c, c, ', features = ["std", "ints"]' if c == "reals" else "") for c in s["deps"]]))
    rel = s.get("release", False)
    open(tmp + "/demo.sh", "w").write(DEMO % (deps, " --release" if rel else "", "release" if rel else "debug"))
    os.chmod(tmp + "/demo.sh", 0o755)
    open(tmp + "/main.rs", "w").write(s["main"].strip() + "\n")
    rc, o = sh("bash %s/demo.sh" % tmp, timeout=300)
    if rc != 0:
        return "demo fails on the unchanged tree: " + o[-1500:]
    for f, old, new in s["edits"]:
        p = os.path.join(REPO, f)
        t = open(p).read()
        if t.count(old) != 1:
            return "edit matches %d times in %s: %r" % (t.count(old), f, old[:80])
        open(p, "w").write(t.replace(old, new))
    rc, o = sh("bash %s/demo.sh" % tmp, timeout=300)
    if rc == 0:
        return "demo passes with the change"
    if rc == 3:
        return "demo does not build with the change: " + o[-1500:]
    demo_out = o.strip()[-200:]
    rc, o = sh("cargo build --workspace --all-features --offline")
    if rc != 0:
        return "does not build: " + o[-800:]
    ok, bad = tests_ok()
    if not ok:
        return "tests notice: %s" % (bad,)
    _, diff = sh("git diff")
    minus = [l[1:].strip() for l in diff.split("\n") if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
    base = "\n".join(subprocess.run(["git", "show", BASE + ":" + f], cwd=REPO, capture_output=True, text=True).stdout for f, _, _ in s["edits"])
    old = {l.strip() for l in base.split("\n")}
    if not minus or not any(m in old for m in minus):
        return "changes no line of the original repository"
    sh("git checkout -q -- .")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in ("demo.sh", "main.rs"):
        shutil.copy(tmp + "/" + f, d + "/" + f)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(tmp)
    return "kept (%s)" % demo_out.replace("\n", " | ")


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    want = sys.argv[2:]
    prepare()
    for s in g["SEEDS"]:
        if want and s["id"] not in want:
            continue
        if not want and os.path.exists(os.path.join(ROOT, "seeded", s["id"])):
            continue
        print(s["id"], one(s), flush=True)


main()
