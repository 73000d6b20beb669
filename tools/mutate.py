#!/usr/bin/env python3
"""Sensitivity measurement: plant small mechanical changes in scratch copies of the repository and
see which of them no check notices.  Not a registered check; reads /repo, writes only under --scratch.

  mutate.py --scratch /tmp/mut [--files substr] [--jobs 6] [--sample 1.0] [--seed 1] --out survivors.jsonl
"""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, queue, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BINS = {"bits": ["bits", "ints", "bigint"], "traits": ["traits", "ints", "reals"], "ints": ["ints", "bigint", "reals"],
        "utils": ["utils"], "reals": ["reals"], "compounds": ["compounds"], "static-iter": ["staticiter", "compounds"]}

SWAPS = [
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "),
    (r" << ", " >> "), (r" >> ", " << "), (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " | "),
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b([2-9]|[1-9]\d+)\b", lambda m: str(int(m.group(0)) + 1)),
    (r"\bif !", "if "), (r"\bif (?!!|let)", "if !"), (r"(?<=[\s(])-(?=[a-z])", ""), (r"(?<=[\s(])!(?=[a-z])", ""),
    (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bMIN\b", "MAX"), (r"\bMAX\b", "MIN"),
    (r"\bany\b", "all"), (r"\ball\b", "any"), (r"\bLess\b", "Greater"), (r"\bGreater\b", "Less"),
    (r"\bEqual\b", "Less"), (r"\bis_some\b", "is_none"), (r"\bis_none\b", "is_some"),
    (r"\+= ", "-= "), (r"-= ", "+= "), (r"\*= ", "+= "), (r"\|= ", "&= "), (r"&= ", "|= "), (r"<<= ", ">>= "), (r">>= ", "<<= "),
    (r"(?<!\.)\.\.=", ".."), (r"(?<![.\s(,])\.\.(?![.=])", "..="), (r"\.rev\(\)", ""), (r"_le\b", "_be"), (r"_be\b", "_le"),
    (r"_le_", "_be_"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
    (r"wrapping_add", "wrapping_sub"), (r"wrapping_sub", "wrapping_add"), (r"wrapping_mul", "wrapping_add"),
    (r"checked_add", "checked_sub"), (r"saturating_add", "wrapping_add"), (r"saturating_sub", "wrapping_sub"),
    (r"saturating_mul", "wrapping_mul"), (r"\.skip\(", ".step_by("), (r"\.floor\b", ".ceil"), (r"\.ceil\b", ".floor"),
    (r"\.trunc\b", ".floor"), (r"\bsin\b", "cos"), (r"\bcos\b", "sin"), (r"Ordering::(Acquire|Release|AcqRel)", "Ordering::Relaxed"),
    (r"\.is_zero\(\)", ".is_one()"), (r"\.zip\(", ".chain("), (r"\brhs\b", "self"), (r"\bself\.0\b", "rhs.0"), (r"\brhs\.0\b", "self.0"),
    (r"\.x\b", ".y"), (r"\brow\b", "col"), (r"\bcol\b", "row"), (r"\bleft\b", "right"), (r"\bright\b", "left"),
    (r"\bSome\(([^()]*)\)", "None"), (r"\bOk\(", "Err("), (r"leading_zeros", "trailing_zeros"), (r"count_ones", "count_zeros"),
]


def src_files(repo):
    fs = subprocess.run(["git", "-C", repo, "ls-files", "crates/*/src/*.rs"], capture_output=True, text=True).stdout.split()
    return [f for f in fs if "bench-util" not in f and "/tests" not in f and f.split("/")[1] in BINS]


def mutants(repo, f):
    text = open(os.path.join(repo, f)).read().split("\n")
    end = len(text)
    for i, l in enumerate(text):
        if re.match(r"\s*#\[cfg\(.*test.*\)\]", l) and i + 1 < len(text) and "mod " in text[i + 1]:
            end = i
            break
    for i in range(end):
        l = text[i]
        s = l.strip()
        if not s or s.startswith(("//", "#[", "#!", "use ", "pub use", "mod ", "pub mod", "extern", "where", "impl", "///")):
            continue
        code = l.split("//")[0]
        if re.match(r"\s*(pub(\(.*?\))? )?(unsafe )?(const )?(trait|struct|enum|type)\b", l):
            continue
        if re.search(r"\bfn\b", l):
            # only the body on the same line
            if "{" not in l:
                continue
        for pat, rep in SWAPS:
            for m in re.finditer(pat, code):
                if re.search(r"\bfn\b", l) and m.start() < l.index("{"):
                    continue
                new = code[:m.start()] + (rep(m) if callable(rep) else rep) + code[m.end():] + l[len(code):]
                if new != l:
                    yield i, new
        if s.endswith(";") and not re.match(r"(let|return|use|pub|type|const|static|break|continue|\}|\))", s):
            yield i, re.sub(r"\S.*$", "();", l)


def sh(cmd, cwd, env, timeout):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return None, ""


class Worker(threading.Thread):
    def __init__(self, k, a, q, out, lock, stats):
        super().__init__(daemon=True)
        self.k, self.a, self.q, self.out, self.lock, self.stats = k, a, q, out, lock, stats
        self.d = os.path.join(a.scratch, str(k))

    def prepare(self):
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        subprocess.run(["git", "clone", "-q", "/repo", self.d + "/repo"], check=True)
        if os.path.exists("/repo/Cargo.lock"):
            shutil.copy("/repo/Cargo.lock", self.d + "/repo/Cargo.lock")
        shutil.copytree(ROOT + "/harness", self.d + "/harness", ignore=shutil.ignore_patterns("target"))
        p = self.d + "/harness/Cargo.toml"
        t = open(p).read().replace("/repo/", self.d + "/repo/")
        open(p, "w").write(t)
        self.env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_BUILD_JOBS="2", RUST_BACKTRACE="0")

    def try_profile(self, prof, bins, frac):
        env = dict(self.env, CARGO_TARGET_DIR=self.d + "/t-" + prof)
        for b in bins:
            rc, o = sh(["cargo", "build", "-q", "--offline", "--profile", prof, "--bin", b], self.d + "/harness", env, 600)
            if rc != 0:
                return "invalid", b
            exe = "%s/t-%s/%s/%s" % (self.d, prof, prof, b)
            rc, o = sh([exe, "list"], self.d, env, 20)
            if rc != 0:
                return "killed", b + " list"
            for s in json.loads(o):
                n = max(min(200, s["quick"]), int(s["quick"] * frac))
                rc, o = sh(["bash", "-c", "ulimit -v 6000000; exec \"$@\"", "x", exe, "run", "--prop", s["prop"], "--sub", s["sub"], "--cases", str(n)], self.d, env, 60)
                if rc is None:
                    self.hang = True
                elif rc != 0:
                    return ("killed" if rc == 1 or rc < 0 else "error"), "%s/%s %s" % (s["prop"], s["sub"], prof)
        return "survived", ""

    def run(self):
        self.prepare()
        while True:
            try:
                f, i, new = self.q.get_nowait()
            except queue.Empty:
                break
            p = self.d + "/repo/" + f
            orig = open(p).read()
            lines = orig.split("\n")
            old = lines[i]
            lines[i] = new
            open(p, "w").write("\n".join(lines))
            self.hang = False
            bins = BINS[f.split("/")[1]]
            try:
                r, w = self.try_profile("release", bins, self.a.frac)
                if r == "survived":
                    r, w = self.try_profile("checked", bins, self.a.frac)
                    if r == "invalid":
                        r = "survived"
            finally:
                open(p, "w").write(orig)
            if r == "survived" and self.hang:
                r = "hang"
            with self.lock:
                self.stats[r] = self.stats.get(r, 0) + 1
                self.out.write(json.dumps({"r": r, "where": w, "file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}) + "\n")
                self.out.flush()
        shutil.rmtree(self.d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--scratch", required=True)
    ap.add_argument("--files", default="")
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--sample", type=float, default=1.0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--frac", type=float, default=0.1)
    ap.add_argument("--out", required=True)
    ap.add_argument("--count", action="store_true")
    a = ap.parse_args()
    ms = []
    for f in src_files("/repo"):
        if any(x in f for x in a.files.split(",")):
            ms += [(f, i, n) for i, n in dict.fromkeys(mutants("/repo", f))]
    rnd = random.Random(a.seed)
    rnd.shuffle(ms)
    ms = ms[:int(len(ms) * a.sample)]
    print(len(ms), "mutants", flush=True)
    if a.count:
        return
    q = queue.Queue()
    for m in ms:
        q.put(m)
    os.makedirs(a.scratch, exist_ok=True)
    lock, stats = threading.Lock(), {}
    with open(a.out, "a") as out:
        ws = [Worker(k, a, q, out, lock, stats) for k in range(a.jobs)]
        for w in ws:
            w.start()
        for w in ws:
            w.join()
    print(stats)


main()
