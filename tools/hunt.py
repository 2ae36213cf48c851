#!/usr/bin/env python3
"""hunt.py [-j N] [-t TIER] ID...: runs the check of its property against each planted bug (a copy of /repo); PROP=ID:C12 runs another one."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(spec):
    bid, _, prop = spec.partition(":")
    d = os.path.join(V, "seeded", bid)
    prop = prop or json.load(open(d + "/meta.json"))["property"]
    claimed = {c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
    if prop not in claimed:
        return "%-30s %s not claimed" % (bid, prop)
    work = tempfile.mkdtemp(prefix="hunt-")
    try:
        shutil.copytree("/repo", work + "/repo", symlinks=True)
        subprocess.check_call(["git", "apply", d + "/patch.diff"], cwd=work + "/repo")
        # a copy of the machinery, so that evidence is left alone
        shutil.copytree(V, work + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        t = time.time()
        try:
            p = subprocess.run(["python3", "check.py", prop], cwd=work + "/verif", env=dict(os.environ, VERIF_REPO=work + "/repo", VERIF_TIER=tier),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1000)
        except subprocess.TimeoutExpired:
            return "%-30s %s TIMEOUT" % (bid, prop)
        l = [x for x in p.stdout.splitlines() if x.strip()]
        hit = p.returncode == 1 and any(x.startswith("VIOLATION property=" + prop) for x in l)
        what = next((x for x in l if x.startswith("  ")), l[-1] if l else "")
        return "%-30s %s %s %4.0fs | %s" % (bid, prop, "caught" if hit else "MISSED rc=%d" % p.returncode, time.time() - t, what.strip()[:260])
    finally:
        subprocess.call(["chmod", "-R", "u+rwx", work])
        shutil.rmtree(work, ignore_errors=True)


a = sys.argv[1:]
jobs, tier = 2, "quick"
while a and a[0] in ("-j", "-t"):
    if a[0] == "-j":
        jobs = int(a[1])
    else:
        tier = a[1]
    a = a[2:]
ids = a or sorted(os.listdir(V + "/seeded"))
with ThreadPoolExecutor(jobs) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
