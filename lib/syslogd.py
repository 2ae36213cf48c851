"""C22: the Syslog specification against what a daemon receives from the real output."""
from core import *

LV = {"all": 1, "trace": 2, "debug": 3, "info": 4, "warn": 5, "error": 6, "critical": 7, "off": 8}
# name, tag, threshold as written, layout with more than the message
OUT = {"plain": ("t1", "", False), "info": ("app", "info", False), "Warn": ("t/x y", "Warn", True), "error": ("", "ERROR", True), "crit": ("c", "critical", False), "off": ("o", "off", False),
       "unknown": ("u", "loud", False), "debug": ("d", "debug", False), "all": ("a", "aLL", True), "trace": ("tr", "trace", False)}


def thr(o):
    return LV.get(OUT[o][1].lower(), 1)


def design(ck):
    cfg = "INIT Init\nNEXT Next\nVIEW vars\nCHECK_DEADLOCK FALSE\nINVARIANT AllSent\n"
    r = run_tlc(ck, "MC_design", "Syslog", {"Outs": [{"name": "a", "thr": 1}, {"name": "b", "thr": 5}], "MaxSaid": 4 if ck.thorough else 3}, cfg=cfg, workers=CORES, timeout=600)
    ck.log("design: %d states" % r.distinct)


def check_world(ck, name, outs, depth, limit, threads=0, race=False, times=1):
    g = Graph()
    cfg = "INIT Init\nNEXT Calls\nVIEW vars\nCHECK_DEADLOCK FALSE\nINVARIANT PrintState\nACTION_CONSTRAINT PrintTransition\n"
    run_tlc(ck, "MC_" + name, "Syslog", {"Outs": [{"name": o, "thr": thr(o)} for o in outs], "MaxSaid": 0}, cfg=cfg, on_print=g.feed)
    binary = build(ck, "syslog", race)
    paths = [p for _ in range(times) for p in g.walks(ck.rng, 0, depth, limit)]

    def one(k):
        d = ck.dir("w")
        sc = {"Outs": [{"Name": o, "Tag": OUT[o][0], "Thr": OUT[o][1], "Json": OUT[o][2]} for o in outs], "Salt": k + ck.seed, "Threads": threads, "Per": 40,
              "Steps": [{"Op": a["op"], "Lvl": a["lvl"], "O": a["o"], "Want": a.get("want", [])} for a, _ in paths[k]]}
        run = run_harness(binary, "syslog", sc, timeout=120, cwd=d, env={"VERIF_SYSLOG": os.path.join(d, "s"), "GORACE": "halt_on_error=1 exitcode=66"})
        shutil.rmtree(d, ignore_errors=True)
        if run.crashed or "DATA RACE" in run.err:
            return ["the process died: " + run.err[:2000]], 0
        r = result(run, "syslog harness")
        return r["Bad"], r.get("N", 0)
    n = 0
    for k, (bad, m) in enumerate(parallel(one, range(len(paths)))):
        n += m
        if bad and len(ck.violations) < 3:
            ck.violation("%s (outputs %s): %s after %s" % (name, ", ".join(outs), "; ".join(bad[:2]), " ".join("%s%s" % (a["op"], a["lvl"] or a["o"] or "") for a, _ in paths[k][:15])),
                         {"outputs": outs, "walk": [a for a, _ in paths[k]], "differences": bad})
    ck.add("traces_validated_against_impl", len(paths))
    ck.add("datagrams_compared", n)
    ck.log("%s: %d states, %d transitions, %d walks, %d datagrams" % (name, len(g.obs), g.ntrans, len(paths), n))
    ck.cov.setdefault("worlds", {})[name] = {"states": len(g.obs), "transitions": g.ntrans, "walks": len(paths), "datagrams": n, "outputs": outs}
    if paths:
        ck.sample({"world": name, "walk": [(a["op"], a["lvl"], a.get("want")) for a, _ in paths[0]][:10]})


def c22(ck):
    t = ck.thorough
    design(ck)
    for o in OUT:
        check_world(ck, o, [o], 40, None, times=12 if t else 4)
    check_world(ck, "two", ["plain", "Warn"], 60, None, threads=4, times=10 if t else 2)
    check_world(ck, "three", ["error", "info", "unknown"], 60, None if t else 60, threads=4)
    check_world(ck, "four", ["crit", "debug", "all", "error"], 60, None if t else 40, threads=8)
    check_world(ck, "race", ["plain", "Warn"], 30, 60 if t else 12, threads=6, race=True)
