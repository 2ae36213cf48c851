#!/usr/bin/env python3
"""refactor.py [-j N] [-t TIER] [-c C01,C02] [NAME...]: runs the checks against each behaviour-preserving edit in tools/refactors
(a copy of /repo, built and tested first); every one must stay quiet."""
import os, re, runpy, shutil, subprocess, sys, tempfile, time, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a, jobs, tier, only = sys.argv[1:], 2, "quick", None
while a and a[0] in ("-j", "-t", "-c"):
    if a[0] == "-j":
        jobs = int(a[1])
    elif a[0] == "-t":
        tier = a[1]
    else:
        only = a[1].split(",")
    a = a[2:]
D = os.path.join(V, "tools", "refactors")
names = a or sorted(f[:-3] for f in os.listdir(D) if f.endswith(".py"))
work = tempfile.mkdtemp(prefix="refac-")
# a copy of the machinery, so that evidence is left alone
shutil.copytree(V, work + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
props = only or [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]


def prepare(n):
    d = work + "/" + n
    shutil.copytree("/repo", d, symlinks=True)
    for f, old, new in runpy.run_path(os.path.join(D, n + ".py"))["EDITS"]:
        s = open(os.path.join(d, f)).read()
        assert s.count(old) == 1, (n, f, s.count(old), old[:80])
        open(os.path.join(d, f), "w").write(s.replace(old, new))
    p = subprocess.run("go vet ./api && go build ./... && go test -count=1 -v ./...", shell=True, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    bad = set(re.findall(r"^--- FAIL: (\w+)", p.stdout, re.M)) - {"TestManager", "TestTempFile"}  # not stable on /repo either
    ok = not bad and "build failed" not in p.stdout and "--- PASS" in p.stdout
    print(n, "builds and passes" if ok else "BROKEN\n" + p.stdout[-3000:], flush=True)
    return ok


def one(nc):
    n, c = nc
    # each run in its own copy: checks build in the tree
    ev = tempfile.mkdtemp(prefix="v-", dir=work)
    shutil.copytree(work + "/verif", ev + "/verif")
    t = time.time()
    try:
        p = subprocess.run(["python3", "check.py", c], cwd=ev + "/verif", env=dict(os.environ, VERIF_REPO=work + "/" + n, VERIF_TIER=tier),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        rc, out = "timeout", ""
    shutil.rmtree(ev, ignore_errors=True)
    return "%-12s %s %s %4.0fs%s" % (n, c, "quiet" if rc == 0 else "ALARM rc=%s" % rc, time.time() - t, "" if rc == 0 else "\n" + out[-1500:])


try:
    ok = [n for n in names if prepare(n)]
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(one, [(n, c) for n in ok for c in props]):
            print(r, flush=True)
finally:
    subprocess.call(["chmod", "-R", "u+rwx", work])
    shutil.rmtree(work, ignore_errors=True)
