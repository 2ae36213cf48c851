"""C12: the SyncOut specification against recorded runs of synchronous outputs."""
from core import *


def design(ck, name, threads, size, rolling, limit):
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join("INVARIANT %s\n" % i for i in ("Once", "AtReturn", "RealTime", "ThreadOrder", "RolledFull", "Below")) + "PROPERTY Finishes\n"
    r = run_tlc(ck, "MC_" + name, "SyncOut", {"Runs": [{"thread": threads, "size": size, "rolling": rolling, "limit": limit}]}, cfg=cfg, workers=CORES, timeout=800)
    ck.log("design %s: %d states" % (name, r.distinct))
    ck.cov.setdefault("models", {})[name] = r.distinct


def brief(t, upto):
    return " ".join("%s%d" % ("call" if e[0] == 1 else "ret", e[1]) for e in t["Events"][max(0, upto - 12):upto])


def runs(ck, name, cfgs, race=False):
    binary = build(ck, "main", race)
    cs = []
    for i, c in enumerate(cfgs):
        c = dict({"Limit": 0, "Archive": "", "Prefix": False, "Procs": 0, "Fine": False, "Big": 400, "Look": i % 3 == 0}, **c)
        c["Seed"] = ck.seed * 1000003 + i
        c["Dir"] = os.path.join(ck.tmp, "sync-%s-%d" % (name, i))
        cs.append(c)
    shards = [cs[i:i + 40] for i in range(0, len(cs), 40)]

    def go(sh):
        run = run_harness(binary, "sync", sh, timeout=400, env={"GORACE": "halt_on_error=1 exitcode=66"})
        if run.crashed or "DATA RACE" in run.err:
            return [{"Bad": "the process died: " + run.err[:2500], "Events": [], "Files": []}] * len(sh)
        return result(run, "sync harness")
    res = [x for l in parallel(go, shards, 4) for x in l]
    items = list(zip(cs, res))
    for c, r in items:
        if r["Bad"] and len(ck.violations) < 3:
            ck.violation("%s, %s: %s" % (name, c["Kind"], r["Bad"][:1500]), {"run": c, "trace": r})
    items = [(c, r) for c, r in items if not r["Bad"]]

    def val(g):
        tr = [{"events": [e for e in r["Events"]], "target": r["Files"], "thread": r["Thread"], "size": r["Size"],
               "rolling": {"size": "size", "time": "time"}.get(c["Kind"], "none"), "limit": c["Limit"]} for c, r in g]
        got = {}
        run_tlc(ck, "MC_tr", "SyncTrace", {"Runs": tr}, cfg="INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nCONSTRAINT Reached\nPOSTCONDITION VPost\n",
                body='VPost == \\A t \\in 1..Len(Runs) : PrintT("@@R" \\o ToJson(<<t, TLCGet(t)>>))\n',
                on_print=lambda s: got.update([(lambda x: (x[0], x[1]))(json.loads(s[1:]))]), timeout=600)
        return [(c, r, got.get(n + 1)) for n, (c, r) in enumerate(g) if got.get(n + 1) != [len(r["Events"]), sum(map(len, r["Files"]))]]
    bads = [x for l in parallel(val, [items[i:i + 10] for i in range(0, len(items), 10)], CORES) for x in l]
    for c, r, n in bads:
        if len(ck.violations) < 3:
            i, w = n or [0, 0]
            flat = [x for f in r["Files"] for x in f]
            nx = r["Events"][i] if i < len(r["Events"]) else None
            ck.violation("%s, %s: a recorded run is no behaviour of the specification: after ... %s and %d records, neither '%s' nor record %s of the target (files of %s records%s) is possible" % (
                name, c["Kind"], brief(r, i), w, "%s%d" % ("call" if nx[0] == 1 else "ret", nx[1]) if nx else "end", flat[w] if w < len(flat) else "none", [len(f) for f in r["Files"]],
                ", limit %d" % c["Limit"] if c["Limit"] else ""), {"run": c, "trace": r, "matched": n})
    ck.add("traces_validated_against_impl", len(items))
    ck.add("events", sum(len(r["Events"]) for _, r in items))
    kinds = {}
    for c, r in items:
        k = kinds.setdefault(c["Kind"] + (" " + c["Archive"] if c["Archive"] else ""), {"runs": 0, "messages": 0, "files": 0})
        k["runs"] += 1
        k["messages"] += len(r["Size"])
        k["files"] += len(r["Files"])
    ck.log("%s: %d recorded runs: %s" % (name, len(items), kinds))
    ck.cov.setdefault("recorded", {})[name] = {"kinds": kinds, "race_detector": race}
    if items:
        c, r = items[-1]
        ck.sample({"run": {k: c[k] for k in ("Kind", "Threads", "Per", "Limit", "Archive")}, "files": r["Files"][:4]})


def shapes(n):
    base = [{"Kind": "size", "Threads": 4, "Per": 12, "Limit": 500}, {"Kind": "size", "Threads": 8, "Per": 6, "Limit": 300, "Prefix": True},
            {"Kind": "size", "Threads": 3, "Per": 15, "Limit": 60, "Archive": "gzip"}, {"Kind": "size", "Threads": 6, "Per": 8, "Limit": 1, "Archive": "zip", "Prefix": True},
            {"Kind": "time", "Threads": 4, "Per": 12, "Archive": "gzip"}, {"Kind": "time", "Threads": 8, "Per": 6, "Archive": "zip", "Prefix": True}, {"Kind": "time", "Threads": 5, "Per": 10, "Archive": "zip", "Fine": True},
            {"Kind": "console", "Threads": 6, "Per": 10, "Big": 3000}, {"Kind": "memory", "Threads": 8, "Per": 8, "Big": 3000}, {"Kind": "pipe", "Threads": 6, "Per": 8, "Big": 150000},
            {"Kind": "size", "Threads": 6, "Per": 8, "Limit": 200000, "Big": 150000}, {"Kind": "memory", "Threads": 2, "Per": 20}, {"Kind": "size", "Threads": 2, "Per": 20, "Limit": 250}]
    out = []
    for i in range(n):
        c = dict(base[i % len(base)])
        c["Procs"] = (0, 2, 0, 1)[i // len(base) % 4]
        out.append(c)
    return out


def c12(ck):
    t = ck.thorough
    design(ck, "none", [1, 1, 2, 2, 3], [1] * 5, "none", 0)
    design(ck, "size", [1, 1, 2, 3] + ([2] if t else []), [1, 2, 1, 3] + ([1] if t else []), "size", 3)
    design(ck, "time", [1, 1, 2, 2], [1] * 4, "time", 0)
    runs(ck, "runs", shapes(3000 if t else 360))
    runs(ck, "race", shapes(480 if t else 72), race=True)
