#!/usr/bin/env python3
"""mutants.py [-n N] [-s SEED] FILE:CHECKS...: single mutations of FILE (relative to /repo) that build and pass the tests, against the checks (comma separated)."""
import json, os, random, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a, n, seed = sys.argv[1:], 10 ** 6, 1
while a[0] in ("-n", "-s"):
    if a[0] == "-n":
        n = int(a[1])
    else:
        seed = int(a[1])
    a = a[2:]
work = tempfile.mkdtemp(prefix="mut-")
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
subprocess.check_call(["go", "build", "-o", work + "/mutate", V + "/tools/mutate/main.go"], env=env)
shutil.copytree("/repo", work + "/repo", symlinks=True)
shutil.copytree(V, work + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
repo = work + "/repo"
base = json.load(open("/opt/vp/BASELINE.json"))
r = random.Random(seed)
jobs = []
for spec in a:
    f, _, checks = spec.partition(":")
    for m in json.loads(subprocess.check_output([work + "/mutate", "/repo/" + f])):
        jobs.append((f, checks.split(","), m))
r.shuffle(jobs)
stats = {}


def passed(f):
    t = subprocess.run(["go", "test", "-count=1", "-json", "./..."], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200).stdout
    fails = set()
    ok = set()
    for l in t.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Test") and e["Action"] in ("pass", "fail"):
            (ok if e["Action"] == "pass" else fails).add((e["Package"], e["Test"]))
    return ok


good = passed(None)
for f, checks, m in jobs:
    if n <= 0:
        break
    p = repo + "/" + f
    src = open("/repo/" + f, "rb").read()
    try:
        open(p, "wb").write(src[:m["From"]] + m["New"].encode() + src[m["To"]:])
        if subprocess.run(["go", "vet", "./" + os.path.dirname(f)], cwd=repo, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode and \
           subprocess.run(["go", "build", "./..."], cwd=repo, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            continue
        try:
            if good - passed(f):
                stats["tests"] = stats.get("tests", 0) + 1
                continue
        except subprocess.TimeoutExpired:
            continue
        n -= 1
        by, notes = None, []
        t0 = time.time()
        for c in checks:
            try:
                q = subprocess.run(["python3", "check.py", c], cwd=work + "/verif", env=dict(os.environ, VERIF_REPO=repo, VERIF_TIER="quick"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                if q.returncode == 1 and "VIOLATION property=" + c in q.stdout:
                    by = c
                    break
                if q.returncode:
                    notes.append("%s rc=%d %s" % (c, q.returncode, q.stdout[-200:]))
            except subprocess.TimeoutExpired:
                notes.append(c + " timeout")
        k = by or "SURVIVED"
        stats[k] = stats.get(k, 0) + 1
        print("%-9s %4.0fs %s:%d %s -> %r %s" % (k, time.time() - t0, f, m["Line"], m["What"].replace("\n", " ")[:110], m["New"][:60], notes or ""), flush=True)
    finally:
        open(p, "wb").write(src)
print(stats)
subprocess.call(["chmod", "-R", "u+rwx", work])
shutil.rmtree(work, ignore_errors=True)
