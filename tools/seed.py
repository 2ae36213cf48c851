#!/usr/bin/env python3
"""Makes one planted bug: seed.py SPEC.py where SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (Go source of
a program that exits 0 when the property holds) or DEMO_TEST (Go test file), optional DEMO_SH. Confirms that it builds, passes the tests, and that the demonstration
discriminates; then writes /verif/seeded/ID."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")

SH = r'''#!/bin/bash
# exit 0: the property holds, nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%s/zz_demo/main.go": "%s/main.go"}}' "$PWD" "$here" > "$t/overlay.json"
cp go.mod go.sum "$t/"
go build @RACE@-modfile "$t/go.mod" -overlay "$t/overlay.json" -o "$t/demo" github.com/xtfly/log4g/zz_demo || exit 98
mkdir "$t/scratch" && cd "$t/scratch" && timeout 120 @PRE@"$t/demo"
'''
SHT = r'''#!/bin/bash
# exit 0: the property holds, nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%s/@PKG@/zz_demo_test.go": "%s/demo_test.go.txt"}}' "$PWD" "$here" > "$t/overlay.json"
cp go.mod go.sum "$t/"
go test -c -vet=off -modfile "$t/go.mod" -overlay "$t/overlay.json" -o "$t/demo" ./@PKG@ || exit 98
mkdir "$t/scratch" && cd "$t/scratch" && timeout 120 "$t/demo" -test.run '^TestZZDemo' -test.count=1
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(path):
    s = runpy.run_path(path)
    work = tempfile.mkdtemp(prefix="seed-")
    repo = work + "/repo"
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        sh(["git", "checkout", "--", "."], repo)
        out = os.path.join(V, "seeded", s["ID"])
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        if "DEMO" in s and "DEMO_SH" in s:
            open(out + "/main.go", "w").write(s["DEMO"])
            open(out + "/demo.sh", "w").write(s["DEMO_SH"])
        elif "DEMO" in s:
            open(out + "/main.go", "w").write(s["DEMO"])
            open(out + "/demo.sh", "w").write(SH.replace("@RACE@", "-race " if s.get("RACE") else "").replace("@PRE@", s.get("PRE", "")))
        elif "DEMO_TEST" in s:
            open(out + "/demo_test.go.txt", "w").write(s["DEMO_TEST"])
            open(out + "/demo.sh", "w").write(SHT.replace("@PKG@", s.get("PKG", "internal")))
        else:
            open(out + "/demo.sh", "w").write(s["DEMO_SH"])
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        p = sh([out + "/demo.sh"], repo)
        if p.returncode != 0:
            print("DEMO FAILS ON CLEAN TREE", s["ID"], p.returncode, p.stdout[-2500:])
            return 1
        for f, old, new in s["EDITS"]:
            t = open(repo + "/" + f).read()
            if t.count(old) != 1:
                print("EDIT DOES NOT MATCH ONCE", s["ID"], f, t.count(old), old)
                return 1
            open(repo + "/" + f, "w").write(t.replace(old, new))
        sh(["gofmt", "-l", "."], repo)
        p = sh(["git", "diff"], repo)
        open(out + "/patch.diff", "w").write(p.stdout)
        base = set(sh(["git", "show", "--no-patch", "--format=%h", "7e774de"], repo).stdout.split())
        for f in {e[0] for e in s["EDITS"]}:
            blame = sh(["git", "blame", "-s", "HEAD", "--", f], repo).stdout.splitlines()
            old = n = 0
            for l in sh(["git", "diff", "-U0", "--", f], repo).stdout.splitlines():
                if l.startswith("@@"):
                    n = int(l.split("-")[1].split(",")[0].split()[0])
                elif l.startswith("-") and not l.startswith("---"):
                    old += blame[n - 1].startswith("^")
                    n += 1
            if not old:
                print("NO ORIGINAL LINE CHANGED", s["ID"], f)
        p = sh(["go", "build", "./..."], repo)
        if p.returncode:
            print("DOES NOT BUILD", s["ID"], p.stdout[-2000:])
            return 1
        p = sh(["go", "test", "-vet=off", "-count=1", "-json", "./..."], repo)
        ok = set()
        for l in p.stdout.splitlines():
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get("Action") == "pass" and e.get("Test"):
                ok.add(e["Package"] + "::" + e["Test"])
        base = open("/opt/vp/BASELINE.json").read()
        names = {x.split("::")[1] for x in ok}
        want = {t for t in json.loads(base)["stable"]} if "stable" in json.loads(base) else None
        n = len(ok)
        if n < 16:
            print("TESTS FAIL", s["ID"], n, sorted(ok))
            return 1
        p = sh([out + "/demo.sh"], repo)
        if p.returncode in (0, 98, 99):
            print("DEMO PASSES ON BUGGY TREE", s["ID"], p.returncode, p.stdout[-1500:])
            return 1
        print("SEEDED", s["ID"], "tests", n, "demo rc", p.returncode, p.stdout.strip().splitlines()[-1:] )
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        sys.exit(max(ex.map(main, sys.argv[1:])))
