"""C27: the Neighbours specification against outputs that write beside each other."""
from core import *


def out(kind="size", cap=1, keep=1, arch=False, how="works"):
    return {"kind": kind, "cap": cap, "keep": keep, "arch": arch, "how": how}


CFG = "INIT Init\nNEXT Next\nVIEW vars\nCHECK_DEADLOCK FALSE\nINVARIANT Independent\nINVARIANT NothingLeft\n"


def design(ck):
    """Every order of the steps of two or three outputs."""
    t = ck.thorough
    worlds = {
        "archives": ([out(arch=True), out(arch=True)], [[[1]], [[2]]], 4 if t else 3, 0),
        "mixed": ([out(arch=True), out(cap=2, keep=1), out("time", arch=True)], [[[1]], [[2, 3]]], 3, 2 if t else 1),
        "failing": ([out(arch=True, how="stuck"), out(how="broken"), out(arch=True)], [[[1, 2], [2]], [[3]]], 3, 0),
        "three": ([out(arch=True), out(arch=True), out(arch=True)], [[[1]], [[2]], [[3]]], 3, 0),
    }
    for n, (outs, procs, msgs, periods) in worlds.items():
        consts = {"Outs": outs, "Procs": procs, "MaxMsgs": msgs, "Periods": periods, "OneTemp": False}
        r = run_tlc(ck, "MC_d" + n, "Neighbours", consts, cfg=CFG, workers=CORES, timeout=800)
        ck.log("design %s: %d states" % (n, r.distinct))
        ck.cov.setdefault("design", {})[n] = r.distinct
    n = "archives"
    outs, procs, msgs, periods = worlds[n]
    consts = {"Outs": outs, "Procs": procs, "MaxMsgs": 3, "Periods": 0, "OneTemp": False}
    r = run_tlc(ck, "MC_live", "Neighbours", consts, cfg="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPROPERTY Ends\n", workers=CORES, timeout=800)
    consts["OneTemp"] = True
    r = run_tlc(ck, "MC_onetemp", "Neighbours", consts, cfg=CFG, workers=1, timeout=600, expect_ok=False)
    if "Invariant Independent is violated" not in r.out:
        raise ToolError("the statement does not exclude one temporary file:\n" + r.out[-2000:])


FILES = ["app.log", "app.log.old", "xapp.log", "app", "app.logs", "my.app.log", "APP.LOG", "app.log.txt", "a", "log", "app-1.log"]
PATTERNS = ["2006-01-02T15.04.05", "20060102150405", "15-04-05 on 02.01.2006", "Jan 2 15.04.05 2006", "06.002.15.04.05"]


def scripted(ck, k, outs, procs, steps, asyncs=False, big=False):
    """What the harness is told: outputs with names and options of their own."""
    rng = random.Random(ck.seed * 977 + k)
    names = []
    dirs = ["", "", ""] + [rng.choice(["x/", "x/y/", "app.log.d/", "1.app.log.d/"])] if k % 3 == 0 else [""]
    while len(names) < len(outs):
        n = rng.choice(dirs) + rng.choice(FILES[:4] if k % 3 == 0 else FILES)
        if n not in names:
            names.append(n)
    length = rng.choice([20000, 60000, 150000]) if big else rng.choice([40, 100, 3000])
    d = ck.dir("w")
    os_, fmts = [], [{"name": n, "type": "text", "layout": "%{level} %{module}: %{msg}\n"} for n in ("g1", "g2")]
    for i, o in enumerate(outs):
        prefix = rng.random() < 0.4
        arch = rng.choice(["zip", "gzip"]) if o["arch"] else "none"
        fp, bp = rng.choice([0o600, 0o640, 0o644, 0o666]), rng.choice([0o500, 0o400, 0o444, 0o640])
        c = {"name": "o%d" % (i + 1), "type": o["kind"] + "_rolling_file", "format": rng.choice(["g1", "g2"]), "name_mode": "prefix" if prefix else "postfix",
             "file_perm": "0%o" % fp, "back_perm": "0%o" % bp, "dir_perm": "0755", "backups": str(o["keep"])}
        if o["kind"] == "size":
            c["size"] = str(o["cap"] * length - rng.choice([0, 1, length // 2]))
        else:
            c["pattern"] = rng.choice(PATTERNS)
        if arch != "none":
            c["archive"] = arch
        a = asyncs and o["kind"] == "size" and rng.random() < 0.4
        if a:
            c.update({"async": "true", "batch_num": "1", "queue_size": str(rng.choice([1, 2, 1000]))})
        os_.append({"Cfg": c, "File": names[i], "Kind": o["kind"], "Arch": arch, "Prefix": prefix, "Async": a, "Stuck": o["how"] == "stuck",
                    "Broken": o["how"] == "broken", "FPerm": fp, "BPerm": bp})
    return {"Dir": d, "Outs": os_, "Procs": procs, "Formats": fmts, "Len": length, "Steps": steps, "Salt": k}


def files(want):
    return [[{"K": f["k"], "Msgs": f["msgs"], "Period": f["period"]} for f in o] for o in want]


def replay(ck, name, kind, race, scripts):
    binary = build(ck, kind, race)

    def one(sc):
        run = run_harness(binary, "neighbours", sc, timeout=200, cwd=sc["Dir"], env={"TZ": "UTC", "GORACE": "halt_on_error=1 exitcode=66"},
                          args=["-test.run", "TestZZClock"] if kind == "clock" else ())
        shutil.rmtree(sc["Dir"], ignore_errors=True)
        if run.crashed or "DATA RACE" in run.err:
            return ["the process died: " + run.err[:2000]], 0
        r = result(run, "neighbours harness")
        return r["Bad"] or [], r["Files"]
    n = 0
    for sc, (bad, c) in zip(scripts, parallel(one, scripts)):
        n += c
        if bad and len(ck.violations) < 3:
            ck.violation("world %s: %s" % (name, "; ".join(bad[:3])), {"script": sc, "differences": bad})
    ck.add("traces_validated_against_impl", len(scripts))
    ck.add("files_compared", n)
    return n


def walks(ck, name, outs, procs, msgs, periods, limit):
    """Whole calls of all goroutines in every order, one after the other; the directory after each."""
    consts = {"Outs": outs, "Procs": procs, "MaxMsgs": msgs, "Periods": periods, "OneTemp": False}
    g = state_graph(ck, "MC_w" + name, "Neighbours", consts, nxt="WholeCalls", view="Seen")
    paths = g.walks(ck.rng, g.start, 14, limit)
    scripts = []
    for k, p in enumerate(paths):
        steps = [{"Op": a["op"], "P": a["p"], "N": a["n"], "Want": files(g.obs[t])} for a, t in p]
        scripts.append(scripted(ck, k, outs, procs, steps))
    kind = "clock" if any(o["kind"] == "time" for o in outs) else "main"
    n = replay(ck, name, kind, False, scripts)
    ck.log("world %s: %d states, %d transitions, %d walks, %d files" % (name, len(g.obs), g.ntrans, len(paths), n))
    ck.cov.setdefault("worlds", {})[name] = {"states": len(g.obs), "transitions": g.ntrans, "walks": len(paths), "files": n}
    ck.sample({"world": name, "walk": [[a["op"], a["p"], a["n"]] for a, _ in paths[0]]})


def rounds(ck, name, outs, procs, runs, nrounds, calls, race=False, big=True):
    """All goroutines at once, round by round, with the time going on in between; the directory after each round."""
    rng = ck.rng
    kind = "clock" if any(o["kind"] == "time" for o in outs) else "main"
    plans, cases = [], {}
    for _ in range(runs):
        hist, now, plan = [[] for _ in outs], 0, []
        for r in range(nrounds):
            rd = [[rng.randint(1, len(ls)) for _ in range(rng.randint(1, calls))] for ls in procs]
            for p, ls in enumerate(rd):
                for l in ls:
                    for o in procs[p][l - 1]:
                        hist[o - 1].append(now)
            keys = [(o + 1, tuple(h)) for o, h in enumerate(hist)]
            for x in keys:
                cases.setdefault(x, None)
            plan.append((rd, keys))
            if kind == "clock":
                now += 1
        plans.append(plan)
    todo = list(cases)
    body = "Cases == " + tla([{"o": o, "h": list(h)} for o, h in todo]) + "\nASSUME \\A i \\in 1..Len(Cases) : PrintT(\"@@\" \\o ToJson([i |-> i, f |-> Files(Cases[i].o, Cases[i].h)]))\nStop == FALSE /\\ UNCHANGED <<vars, act>>\n"
    consts = {"Outs": outs, "Procs": procs, "MaxMsgs": 1000, "Periods": 100, "OneTemp": False}
    r = run_tlc(ck, "MC_r" + name, "Neighbours", consts, body=body, cfg="INIT Init\nNEXT Stop\nCHECK_DEADLOCK FALSE\n", timeout=300)
    for p in r.prints:
        p = json.loads(p)
        cases[todo[p["i"] - 1]] = p["f"]
    scripts = []
    for k, plan in enumerate(plans):
        steps = []
        for i, (rd, keys) in enumerate(plan):
            want = files([cases[x] for x in keys])
            if i and kind == "clock":
                steps.append({"Op": "tick", "Want": steps[-1]["Want"]})
            steps.append({"Op": "round", "Round": rd, "Want": want})
        scripts.append(scripted(ck, 1000 + k, outs, procs, steps, asyncs=kind == "main", big=big))
    n = replay(ck, name, kind, race, scripts)
    ck.log("%s: %d concurrent runs, %d cases, %d files" % (name, len(scripts), len(cases), n))
    ck.cov.setdefault("worlds", {})[name] = {"runs": len(scripts), "histories_of_outputs": len(cases), "files": n, "race_detector": race}


SIZES = ("sizes", [out(arch=True), out(cap=2, keep=2), out(cap=2, arch=True)], [[[1, 2]], [[3]]], 6, 0)
FAILING = ("failing", [out(how="broken"), out(arch=True), out(arch=True, how="stuck"), out("time", arch=True)], [[[1, 2], [3, 1, 4]]], 5, 2)
FOUR = [out(arch=True), out(arch=True), out(cap=3, keep=2, arch=True), out(cap=2, keep=3)]


def c13(ck):
    """Also in C13, C15, C16, C20: several files beside each other."""
    walks(ck, *SIZES, None)
    rounds(ck, "archiving", FOUR, [[[1]], [[2]], [[3]], [[4]]], 200 if ck.thorough else 24, 3, 12)


def c14(ck):
    T = out("time", arch=True)
    rounds(ck, "periods", [T, T, out(arch=True), out("time", keep=2)], [[[1]], [[2]], [[3]], [[4]]], 200 if ck.thorough else 24, 6, 3)


def c17(ck):
    walks(ck, *FAILING, 500 if ck.thorough else 100)
    rounds(ck, "lists", LISTS[0], LISTS[1], 100 if ck.thorough else 16, 3, 10)


LISTS = ([out(arch=True), out(keep=20), out(arch=True), out(how="broken"), out(arch=True, how="stuck"), out(arch=True)], [[[1, 2], [2]], [[4, 3], [5, 3, 4]], [[6]]])


def c27(ck):
    t = ck.thorough
    design(ck)
    A, T = out(arch=True), out("time", arch=True)
    walks(ck, *SIZES, None if t else 250)
    walks(ck, "kinds", [A, T, out("time", keep=2)], [[[1, 2], [2]], [[3]]], 4, 3, None if t else 250)
    walks(ck, *FAILING, None if t else 250)
    rounds(ck, "archiving", FOUR, [[[1]], [[2]], [[3]], [[4]]], 300 if t else 40, 3, 12)
    rounds(ck, "lists", LISTS[0], LISTS[1], 200 if t else 30, 3, 10)
    rounds(ck, "periods", [T, T, A, out("time", keep=2)], [[[1]], [[2]], [[3]], [[4]]], 200 if t else 30, 6, 3)
    rounds(ck, "race", FOUR, [[[1]], [[2]], [[3]], [[4]]], 60 if t else 6, 2, 8, race=True)
