"""C07: the Caller specification against what records of the real library say."""
from core import *

OUTS = [("n", "file", 0, []), ("l", "file", 1, ["line"]), ("s", "console", 1, ["shortfile", "line"]), ("g", "async", 1, ["longfile", "line"]),
        ("p", "file", 2, ["longpkg", "shortpkg"]), ("f", "console", 2, ["shortfunc", "longfunc"]), ("a", "async", 2, ["longfunc", "line", "shortfile", "shortpkg"]),
        ("r", "rec", 2, ["line", "longfile", "shortfile", "longpkg", "shortpkg", "longfunc", "shortfunc"]), ("m", "async", 0, [])]


def graph(ck, name, parents, lists, skips):
    idx = {o[0]: i + 1 for i, o in enumerate(OUTS)}
    consts = {"Parents": parents, "Outs": [{"name": n, "need": d} for n, t, d, v in OUTS], "Lists": [[idx[o] for o in l] for l in lists],
              "Skips": set(skips), "Depth": 8}
    return state_graph(ck, "MC_" + name, "Caller", consts, invariants=["NamesStatement"])


def check_world(ck, name, names, parents, lists, skips, depth, limit, stress=0, race=False):
    g = graph(ck, name, parents, lists, skips)
    binary = build(ck, "main", race)
    paths = g.walks(ck.rng, g.start, depth, limit)
    ops = {}
    for p in paths:
        for a, _ in p:
            ops[a["op"]] = ops.get(a["op"], 0) + 1

    def one(k):
        p = paths[k]
        d = ck.dir("w")
        steps = [{"Op": a["op"], "Logger": a["logger"], "K": a["k"], "List": lists[a["list"] - 1] if a["list"] else [],
                  "Want": [[{"Out": o, "Frame": f} for o, f in l] for l in g.obs[t]]} for a, t in p]
        sc = {"Dir": d, "Names": names, "Outs": [{"Name": n, "Type": t, "Vars": v} for n, t, _, v in OUTS], "Steps": steps, "Salt": k, "Stress": stress}
        run = run_harness(binary, "caller", sc, timeout=120, cwd=d, env={"GORACE": "halt_on_error=1 exitcode=66"})
        shutil.rmtree(d, ignore_errors=True)
        if run.crashed or "DATA RACE" in run.err:
            return ["the process died: " + run.err[:2000]], p, 0
        r = result(run, "caller harness")
        return r["Bad"], p, r["Records"]
    recs = 0
    for bad, p, n in parallel(one, range(len(paths))):
        recs += n
        if bad and len(ck.violations) < 3:
            ck.violation("world %s: %s after %s" % (name, "; ".join(bad[:3]), json.dumps([a for a, _ in p])), {"walk": [a for a, _ in p], "differences": bad, "lists": lists})
    ck.add("traces_validated_against_impl", len(paths))
    ck.add("records_compared", recs)
    ck.log("world %s: %d states, %d transitions, %d walks, %d messages, actions %s" % (name, len(g.obs), g.ntrans, len(paths), recs, ops))
    ck.cov.setdefault("worlds", {})[name] = {"states": len(g.obs), "transitions": g.ntrans, "walks": len(paths), "messages": recs}
    ck.sample({"world": name, "walk": [a for a, _ in paths[0]]})


def c07(ck):
    t = ck.thorough
    # inheritance over three levels, mixed lists
    check_world(ck, "inherit", ["root", "t", "t/a", "t/a.b"], [0, 1, 2, 3],
                [[], ["l"], ["n", "a"], ["f", "g", "n"]], [], 14, None if t else 120)
    check_world(ck, "skips", ["root", "t", "t/a"], [0, 1, 2], [[], ["r", "g"], ["n", "m"]], [0, 1, 2], 16, None if t else 150)
    check_world(ck, "lists", ["root", "t"], [0, 1], [[]] + [[o[0]] for o in OUTS] + [["n", "p"], ["m", "a", "l"], ["s", "n"], ["r", "f", "a", "l"], ["n", "m"]],
                [0, 1, 3], 16, None if t else 120)
    check_world(ck, "race", ["root", "t", "t/a"], [0, 1, 2], [[], ["r", "g", "f"], ["l", "m", "a"]], [0, 2], 6, 40 if t else 8, stress=400, race=True)
