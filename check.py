#!/usr/bin/env python3
"""Run the generated-input checks of one property.

  check.py run  <property> [--tier quick|thorough] [--seed N]
  check.py replay <file>            re-run a saved failing case (exit 1 if it still fails)
  check.py setup                    build every harness once

Exit codes: 0 held on everything explored, 1 violated (VIOLATION line), 2 the check itself
could not give an answer (build error, time limit).
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import literals  # noqa: E402
import properties as P  # noqa: E402

TARGET = os.path.join(ROOT, "target")
REPLAYS = os.path.join(ROOT, "replays")
EVIDENCE = os.path.join(ROOT, "evidence")
WORKERS = min(8, os.cpu_count() or 8)
LIMITS = {"quick": 720, "thorough": 4 * 3600}
# one sub-process; takes seconds unless the code under test hangs
TASK_LIMITS = {"quick": 300, "thorough": 2 * 3600}
OPTIONAL = {"sched"}
# case counts are the ones registered with each sub-check times these, with fresh seeds
TIMES = {"quick": 2, "thorough": 50}
MEM = 3 << 30


# file of values the sources mention, written before a run
DICT = None


class Broken(Exception):
    """The check cannot answer."""


def env():
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    e.pop("RUSTFLAGS", None)
    if DICT:
        e["VERIF_DICT"] = DICT
    return e


def build(pairs):
    """pairs: list of (package, bin, profile). Different profiles build side by side."""
    by = {}
    for pkg, binary, prof in pairs:
        by.setdefault((pkg, prof), []).append(binary)

    def one(item):
        (pkg, prof), bins = item
        cmd = ["cargo", "build", "-q", "--offline", "--locked", "--profile", prof]
        for b in bins:
            cmd += ["--bin", b]
        # one target directory per package and profile, so that cargo's lock does not
        # serialise the builds
        e = env()
        e["CARGO_TARGET_DIR"] = tdir(pkg, prof)
        r = subprocess.run(cmd, cwd=os.path.join(ROOT, pkg), env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Broken("build of %s (%s) failed:\n%s" % (pkg, prof, r.stdout[-4000:]))

    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, by.items()))


def tdir(pkg, prof):
    return os.path.join(TARGET, pkg + "-" + prof)


def exe(pkg, binary, prof):
    return os.path.join(tdir(pkg, prof), prof, binary)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


# Set once some task has found a violation: what has not started yet is left out, and what runs
# gets a little longer.
FOUND = threading.Event()
GRACE = 30


def spawn(cmd, timeout, stoppable=False):
    """-> (returncode or None on time-out, stdout, stderr)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", preexec_fn=limits, env=env(), cwd=ROOT)
    end, found = time.time() + timeout, None
    while True:
        try:
            out, err = p.communicate(timeout=max(0.01, min(1.0, end - time.time())))
            return p.returncode, out, err
        except subprocess.TimeoutExpired:
            if stoppable and FOUND.is_set():
                found = found or time.time()
            if time.time() >= end or (found and time.time() - found > GRACE):
                p.kill()
                p.communicate()
                return None, "", ""


# exit code of a harness whose current case does not return (see engine.rs)
HANG = 3
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def is_crash(rc, err):
    """Died by itself, memory running out under RLIMIT_AS included (cases need a few kilobytes)"""
    return rc is not None and rc < 0 and -rc in CRASH


def failed(rc, err):
    return rc in (1, HANG) or is_crash(rc, err)


def run_task(t, deadline):
    if FOUND.is_set():
        return t
    d = tempfile.mkdtemp(prefix="task-", dir=t["scratch"])
    out, hashes = os.path.join(d, "out.json"), os.path.join(d, "hashes")
    base = [t["exe"], "run", "--prop", t["prop"], "--sub", t["sub"], "--seed", str(t["seed"]),
            "--shard", str(t["shard"]), "--cases", str(t["cases"])]
    left = max(1, deadline - time.time())
    t0 = time.time()
    # past this, no further cases are generated: less explored on a slow machine, but an answer
    until = int(min(deadline - 0.4 * LIMITS[t["tier"]], t0 + 0.7 * t["limit"]))
    rc, so, se = spawn(base + ["--until", str(until), "--out", out, "--hashes", hashes], min(left, t["limit"]), stoppable=True)
    t["wall"] = time.time() - t0
    t["hashes"] = hashes if os.path.exists(hashes) else None
    # a failing case is written out before it is made smaller, which may itself not end
    if os.path.exists(out):
        with open(out) as f:
            t["result"] = json.load(f)
        if t["result"]["failure"]:
            confirm(t, base, deadline)
            if t["kind"] == "unconfirmed" and rc != 1:
                t["error"] = "a case failed once, not again, and the process then ended with %s" % rc
                t["result"]["failure"] = None
            elif not t["known"](t):
                FOUND.set()
            return t
        if rc == 0:
            return t
    if is_crash(rc, se) or rc == HANG:
        # run again, leaving the choices of the current case on disk
        crumb = os.path.join(d, "crumb")
        again = base + ["--out", out, "--crumb", crumb]
        if rc == HANG:
            # straight to the case
            i = re.search(r"case (\d+) of this process", se).group(1)
            again += ["--from", i, "--upto", i]
        rc2, _, se2 = spawn(again, max(1, deadline - time.time()), stoppable=True)
        if rc2 is None:
            t["error"] = "process ended with %s, and ran out of time when re-run" % rc
            return t
        tape = []
        try:
            with open(crumb + ".tape", "rb") as f:
                b = f.read()
            tape = [str(int.from_bytes(b[i:i + 8], "little")) for i in range(0, len(b) - 7, 8)]
            idx = int(open(crumb + ".idx").read())
        except OSError:
            idx = -1
        small = tape
        if rc == HANG and rc2 == HANG:
            rc3, se3 = rc2, se2
        else:
            rc3, _, se3 = spawn([t["exe"], "replay", "--prop", t["prop"], "--sub", t["sub"], "--tape", ",".join(tape)],
                                max(1, deadline - time.time()))
        alone = failed(rc3, se3)
        if not alone and (rc == HANG or "memory allocation of" in se):
            # running out of time or memory has to be the doing of one case
            t["error"] = "process ended with %s once, with %s when re-run and with %s alone" % (rc, rc2, rc3)
            return t
        if alone and is_crash(rc3, se3):
            rcs, sos, _ = spawn([t["exe"], "shrink", "--prop", t["prop"], "--sub", t["sub"], "--tape", ",".join(tape)],
                                min(120, max(1, deadline - time.time())))
            if rcs == 0:
                try:
                    small = json.loads(sos)
                except ValueError:
                    pass
        what = ("does not return" if rc == HANG else "process killed by signal %d" % -rc) + ": " + se.strip()[-400:]
        t["result"] = {"evaluations": max(idx + 1, 1), "nontrivial": 0, "distinct": 0, "labels": {}, "samples": [],
                       "failure": {"index": idx, "tape": small, "original": tape, "message": what, "notes": []}}
        t["kind"] = "tape" if alone else "prefix"
        FOUND.set()
        return t
    t["error"] = "time limit" if rc is None else "exit %s: %s" % (rc, (se or so)[-600:])
    return t


def confirm(t, base, deadline):
    """Does the shrunk case fail on its own in a fresh process?"""
    f = t["result"]["failure"]
    for tape in (f["tape"], f["original"]):
        rc, so, se = spawn([t["exe"], "replay", "--prop", t["prop"], "--sub", t["sub"], "--tape", ",".join(tape)],
                           min(120, max(1, deadline - time.time())))
        if failed(rc, se):
            f["tape"] = tape
            t["kind"] = "tape"
            return
    rc, so, se = spawn(base + ["--upto", str(f["index"])], max(1, deadline - time.time()))
    t["kind"] = "prefix" if failed(rc, se) else "unconfirmed"


def replay_file(t, prop):
    os.makedirs(REPLAYS, exist_ok=True)
    f = t["result"]["failure"]
    doc = {
        "property": prop, "package": t["pkg"], "bin": t["bin"], "profile": t["profile"], "sub": t["sub"],
        "kind": t.get("kind", "tape"), "tape": f["tape"], "message": f["message"], "input": f["notes"],
        "run": {"seed": t["seed"], "shard": t["shard"], "cases": t["cases"], "index": f["index"]},
        "replay_cmd": "python3 check.py replay <this file>",
    }
    h = hashlib.sha256(json.dumps(doc, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, "%s-%s-%s-%s.json" % (prop, t["sub"], t["profile"], h))
    with open(path, "w") as fh:
        json.dump(doc, fh, indent=1)
    return path


def known_findings(prop):
    """Lines `known: property=<id> sub=<sub> match=<text> :: <what fails>`"""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s " % prop):
                head, _, what = line[len("known: "):].partition(" :: ")
                kv = dict(x.split("=", 1) for x in head.split(" ", 2))
                out.append((kv.get("sub"), kv.get("match", "").strip(), what.strip()))
    return out


def cmd_run(prop, tier, seed):
    t0 = time.time()
    deadline = t0 + LIMITS[tier]
    spec = next((p for p in P.PROPERTIES if p["id"] == prop), None)
    if spec is None:
        raise Broken("unknown property " + prop)
    known = known_findings(prop)

    def is_known(t):
        f = (t.get("result") or {}).get("failure")
        return [k for k in known if k[0] == t["sub"] and k[1] and k[1] in f["message"]] if f else []

    skipped, bins = [], []
    for pkg, b, profs in spec["bins"]:
        try:
            build([(pkg, b, prof) for prof in profs])
            bins.append((pkg, b, profs))
        except Broken as e:
            # the schedule checks compile the repository's sources against a stand-in for `core`;
            # a tree which uses something the stand-in lacks is still checked with real threads
            if pkg not in OPTIONAL or len(spec["bins"]) == 1:
                raise
            skipped.append(pkg)
            print("NOTE %s: package %s does not build against this tree, its checks are left out\n%s" % (prop, pkg, str(e)[-1500:]))
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    global DICT
    DICT = os.path.join(scratch, "dict")
    words = literals.write(DICT)
    try:
        tasks = []
        for pkg, b, profs in bins:
            for pi, prof in enumerate(profs):
                e = exe(pkg, b, prof)
                rc, so, se = spawn([e, "list"], 60)
                if rc != 0:
                    raise Broken("%s list: %s %s" % (e, rc, se))
                for s in json.loads(so):
                    if s["prop"] != prop:
                        continue
                    total = s["quick"] if s["quick"] < 4 else int(s["quick"] * TIMES[tier])
                    shards = 4 if tier == "quick" else 16
                    shards = max(1, min(shards, total))
                    for k in range(shards):
                        n = total // shards + (1 if k < total % shards else 0)
                        # shard numbers differ between profiles and tiers, so no case is run twice
                        sh = k + 1000 * pi + (100000 if tier == "thorough" else 0)
                        tasks.append({"pkg": pkg, "bin": b, "profile": prof, "exe": e, "prop": prop,
                                      "sub": s["sub"], "seed": seed, "shard": sh, "cases": n, "scratch": scratch,
                                      "limit": TASK_LIMITS[tier], "tier": tier, "known": is_known})
        if not tasks:
            raise Broken("no checks registered for " + prop)
        # every sub-check gets going before any of them gets its second share
        tasks.sort(key=lambda t: t["shard"] % 1000)
        tb = time.time()
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            done = list(ex.map(lambda t: run_task(t, deadline), tasks))
        fails, kf, errors = [], set(), []
        labels, samples, evals, nontriv = {}, [], 0, 0
        persub = {}
        for t in done:
            if "error" in t:
                errors.append(t)
            r = t.get("result")
            if not r:
                continue
            evals += r["evaluations"]
            nontriv += r["nontrivial"]
            a = persub.setdefault(t["sub"] + "/" + t["profile"], {"evaluations": 0, "nontrivial": 0, "cpu_s": 0.0})
            a["evaluations"] += r["evaluations"]
            a["nontrivial"] += r["nontrivial"]
            a["cpu_s"] = round(a["cpu_s"] + t.get("wall", 0), 2)
            for k, v in r["labels"].items():
                labels.setdefault(t["sub"], {})
                labels[t["sub"]][k] = labels[t["sub"]].get(k, 0) + v
            if r["samples"] and sum(1 for s in samples if s["sub"] == t["sub"]) < 3:
                samples.append({"sub": t["sub"], "profile": t["profile"],
                                "input": {k: v for k, v in r["samples"][-1]}})
            f = r.get("failure")
            if f:
                hit = is_known(t)
                if hit:
                    kf.add(hit[0][2])
                else:
                    fails.append(t)
        hf = [t["hashes"] for t in done if t.get("hashes")]
        distinct = 0
        if hf:
            rc, so, _ = spawn([done[0]["exe"], "merge"] + hf, 300)
            distinct = int(so) if rc == 0 else 0
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": distinct, "nontrivial": nontriv,
                "rule": spec["rule"], "samples": samples[:12], "labels": labels, "checks": persub,
                "build_s": round(tb - t0, 1), "left_out": skipped, "dictionary_values": words,
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2), "violations": len(fails),
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        tmp = os.path.join(EVIDENCE, prop + ".json.tmp")
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1)
        os.replace(tmp, os.path.join(EVIDENCE, prop + ".json"))
        for w in sorted(kf):
            print("KNOWN-FINDING: property=%s %s" % (prop, w))
        seen = set()
        for t in sorted(fails, key=lambda t: (t["sub"], len(t["result"]["failure"]["tape"]))):
            if t["sub"] in seen:
                continue
            seen.add(t["sub"])
            p = replay_file(t, prop)
            f = t["result"]["failure"]
            print("%s [%s, %s] %s" % (prop, t["sub"], t["profile"], f["message"][:600]))
            for k, v in f["notes"][:12]:
                print("    %s = %s" % (k, v[:300]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        if fails:
            return 1
        for t in errors:
            print("ERROR %s [%s, %s, shard %d] %s" % (prop, t["sub"], t["profile"], t["shard"], t["error"]))
        if errors:
            return 2
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs (build %.1fs)"
              % (prop, tier, seed, evals, distinct, time.time() - t0, tb - t0))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def cmd_replay(path):
    d = json.load(open(path))
    build([(d["package"], d["bin"], d["profile"])])
    e = exe(d["package"], d["bin"], d["profile"])
    if d["kind"] == "tape":
        cmd = [e, "replay", "--prop", d["property"], "--sub", d["sub"], "--tape", ",".join(d["tape"])]
    else:
        r = d["run"]
        # a history from its start: the same sources give the same dictionary
        global DICT
        fd, DICT = tempfile.mkstemp(prefix="verif-dict-")
        os.close(fd)
        literals.write(DICT)
        cmd = [e, "run", "--prop", d["property"], "--sub", d["sub"], "--seed", str(r["seed"]), "--shard",
               str(r["shard"]), "--cases", str(r["cases"]), "--upto", str(r["index"])]
    rc, so, se = spawn(cmd, 600)
    if DICT:
        os.unlink(DICT)
    print(so.strip(), se.strip()[-500:])
    if rc == 0:
        print("does not fail")
        return 0
    if failed(rc, se):
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    return 2


def cmd_setup():
    pairs = sorted({(pkg, b, prof) for p in P.PROPERTIES for pkg, b, profs in p["bins"] for prof in profs})
    build(pairs)
    os.makedirs(EVIDENCE, exist_ok=True)
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["setup"]:
            return cmd_setup()
        if a[:1] == ["replay"]:
            return cmd_replay(a[1])
        if a[:1] == ["run"]:
            tier = os.environ.get("VERIF_TIER") or "quick"
            seed = int(os.environ.get("VERIF_SEED") or 1)
            if "--tier" in a:
                tier = a[a.index("--tier") + 1]
            if "--seed" in a:
                seed = int(a[a.index("--seed") + 1])
            return cmd_run(a[1], tier, seed)
    except Broken as b:
        print("ERROR", b)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
