#!/usr/bin/env python3
"""Run each seeded change's check in scratch copies of /repo and /verif (never in /repo itself).

  runseeds.py [--jobs 2] [--also C01,C02] [id ...]
  runseeds.py --spec FILE.py         FILE defines B = [(id, property, [(file, old, new), ...]), ...]:
                                     throw-away changes that are not kept in seeded/
"""
import argparse, glob, json, os, shutil, subprocess, threading, queue, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("--jobs", type=int, default=2)
ap.add_argument("--seed", default="1")
ap.add_argument("--also", default="", help="further properties to run on each change")
ap.add_argument("--spec", help="throw-away changes instead of seeded/")
ap.add_argument("--tests", action="store_true", help="also say whether the repository's own tests notice")
ap.add_argument("ids", nargs="*")
a = ap.parse_args()
q, lock = queue.Queue(), threading.Lock()
SPEC = {}
if a.spec:
    ns = {}
    exec(open(a.spec).read(), ns)
    SPEC = {i: (p, e) for i, p, e in ns["B"]}
    for i in SPEC:
        if not a.ids or i in a.ids:
            q.put(i)
for d in [] if a.spec else sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    if not a.ids or i in a.ids:
        q.put(i)


def worker(k):
    w = "/tmp/sv/%d" % k
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(["git", "clone", "-q", "/repo", w + "/repo"], check=True)
    subprocess.run("cp /repo/Cargo.lock repo/; rsync -a --exclude target --exclude .git --exclude seeded %s/ verif/ 2>/dev/null || (mkdir -p verif && cd %s && tar cf - --exclude=./target --exclude=./.git --exclude=./seeded . | tar xf - -C %s/verif)" % (ROOT, ROOT, w), shell=True, cwd=w, check=True)
    subprocess.run("grep -rl '/repo/' verif/harness/Cargo.toml verif/sched --include=Cargo.toml | xargs sed -i 's#/repo/#%s/repo/#g'" % w, shell=True, cwd=w, check=True)
    while True:
        try:
            i = q.get_nowait()
        except queue.Empty:
            break
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=w + "/repo", check=True)
        if a.spec:
            m, bad = {"property": SPEC[i][0]}, False
            for f, old, new in SPEC[i][1]:
                p = w + "/repo/" + f
                s = open(p).read()
                bad |= s.count(old) < 1
                open(p, "w").write(s.replace(old, new, 1))
        else:
            m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, i)))
            bad = subprocess.run(["git", "apply", "%s/seeded/%s/patch.diff" % (ROOT, i)], cwd=w + "/repo").returncode
        if bad:
            print(i, "DOES NOT APPLY", flush=True)
            continue
        if a.tests:
            r = subprocess.run(["cargo", "test", "-q", "--offline", "--workspace"], cwd=w + "/repo", capture_output=True, text=True, env=dict(os.environ, CARGO_TARGET_DIR=w + "/tt"))
            if r.returncode:
                print(i, "the repository's tests notice:", (r.stderr + r.stdout).strip().split("\n")[-1][:150], flush=True)
        for p in [m["property"]] + [x for x in a.also.split(",") if x and x != m["property"]]:
            t = time.time()
            r = subprocess.run(["python3", "check.py", "run", p, "--seed", a.seed], cwd=w + "/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w + "/repo"))
            with lock:
                hit = [l for l in r.stdout.split("\n") if l.startswith(p + " [")]
                print("%-22s %s %s rc=%d %.0fs %s" % (i, p, "CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR", r.returncode, time.time() - t, (hit[0] if hit else r.stdout[-200:])[:150]), flush=True)
    shutil.rmtree(w, ignore_errors=True)


ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.jobs)]
[t.start() for t in ts]
[t.join() for t in ts]
