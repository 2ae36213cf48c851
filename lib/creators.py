"""C26: the Creators specification against creators registered with the real manager."""
from core import *

ODD = ["", " ", " a b ", "x: y # z", "true", "0x10", "1_000", "null", "~", "- a", "{a: b}", "\"q\"", "'q'", "é世界", "a\nb", "\ttab", "%d%%", "%{msg}", "@/x", "1e3", "2001-01-01", "<<", "!!int 3", "&a", "*a", "\\", "no", "x" * 3000]


def check_world(ck, name, outs, fmts, confs, loggers, out_types, fmt_types, versions, depth, limit, stress=0, race=False):
    """outs: name -> (type, format, options), fmts: name -> type, confs: list of logger -> outputs"""
    consts = {"Loggers": loggers, "Outs": [{"name": n, "type": t, "fmt": f} for n, (t, f, _) in outs.items()],
              "Fmts": [{"name": n, "type": t} for n, t in fmts.items()],
              "Confs": [[{"name": l, "outs": o} for l, o in c.items()] for c in confs],
              "OutTypes": out_types, "FmtTypes": fmt_types, "BuiltInOut": Raw('{"size_rolling_file", "console"}'), "BuiltInFmt": Raw('{"text"}'),
              "Versions": set(versions)}
    g = state_graph(ck, "MC_" + name, "Creators", consts, invariants=["Equipped", "Existing"], properties=["MadeByRegistered", "AllOrNothing", "WorksOnceRegistered"])
    binary = build(ck, "main", race)
    paths = g.walks(ck.rng, g.start, depth, limit)
    ops = {}
    for p in paths:
        for a, _ in p:
            ops[a["op"]] = ops.get(a["op"], 0) + 1

    def odd(rng):
        return {rng.choice(["x", "Name2", "ключ", "a b", "a.b", "format2", "yes", "0"]) + str(i): rng.choice(ODD) for i in range(rng.randint(0, 4))}

    def one(k):
        rng = random.Random(ck.seed * 7 + k)
        d = ck.dir("w")
        formats = [dict(odd(rng), name=n, type=t, layout=n + " %{msg}\n") for n, t in fmts.items()]
        outputs = [dict(odd(rng) if t != "size_rolling_file" and t != "console" else {}, name=n, type=t, format=f, **o) for n, (t, f, o) in outs.items()]
        rng.shuffle(formats)
        rng.shuffle(outputs)
        lc = [[{"name": l, "level": rng.choice(["all", "ALL", "trace"]), "outputs": o} for l, o in c.items()] for c in confs]
        steps = [{"Op": a["op"], "What": a["what"], "N": a["n"],
                  "Want": [{"Got": x == 1, "Outs": [{"Out": o, "Ver": v, "Fmt": f, "FV": fv} for o, v, f, fv in l]} for x, l in g.obs[t]]} for a, t in paths[k]]
        sc = {"Dir": d, "Formats": formats, "Outputs": outputs, "Confs": lc, "Loggers": loggers, "Salt": k, "Steps": steps, "Stress": stress}
        run = run_harness(binary, "creators", sc, timeout=120, cwd=d, env={"GORACE": "halt_on_error=1 exitcode=66"})
        shutil.rmtree(d, ignore_errors=True)
        if run.crashed or "DATA RACE" in run.err:
            return ["the process died: " + run.err[:2000]], 0
        r = result(run, "creators harness")
        return r["Bad"] or [], r["Checked"]
    n = 0
    for k, (bad, c) in enumerate(parallel(one, range(len(paths)))):
        n += c
        if bad and len(ck.violations) < 3:
            ck.violation("world %s: %s; history %s" % (name, "; ".join(bad[:3]), json.dumps([[a["op"], a["what"], a["n"]] for a, _ in paths[k]])),
                         {"walk": [a for a, _ in paths[k]], "number": k, "differences": bad, "outputs": outs, "formatters": fmts, "configurations": confs})
    ck.add("traces_validated_against_impl", len(paths))
    ck.add("messages_compared", n)
    ck.log("world %s: %d states, %d transitions, %d walks, %d messages, actions %s" % (name, len(g.obs), g.ntrans, len(paths), n, ops))
    ck.cov.setdefault("worlds", {})[name] = {"states": len(g.obs), "transitions": g.ntrans, "walks": len(paths), "messages": n, "actions": ops, "race_detector": race}
    ck.sample({"world": name, "walk": [[a["op"], a["what"], a["n"]] for a, _ in paths[0]]})


def c26(ck):
    t = ck.thorough
    F = {"file": "o3.log"}
    # types of the program
    check_world(ck, "own", {"o1": ("mine", "g1", {}), "o2": ("mine", "g2", {}), "o3": ("size_rolling_file", "g2", F)}, {"g1": "text", "g2": "form"},
                [{"a": ["o1"], "b": ["o3", "o2"]}, {"a": ["o2", "o1", "o2"], "b": []}], ["a", "b"], ["mine"], ["form"], [1, 2, 8], 16, None if t else 300)
    # built-in ones replaced
    check_world(ck, "builtin", {"o1": ("console", "g1", {}), "o2": ("size_rolling_file", "g1", {"file": "o2.log"}), "o3": ("size_rolling_file", "g2", F)},
                {"g1": "text", "g2": "text"}, [{"a": ["o1", "o2"]}, {"a": ["o3"], "b": ["o2", "o1"]}], ["a", "b"], ["console", "size_rolling_file"], ["text"],
                [1, 2] if t else [1], 16, None if t else 300)
    # a creator that fails, and one type nobody registers
    check_world(ck, "fails", {"o1": ("mine", "g1", {}), "o2": ("yours", "g1", {}), "o3": ("nobody's", "g1", {}), "o4": ("size_rolling_file", "g2", {"file": "o4.log", "async": "true", "batch_num": "3"})},
                {"g1": "form", "g2": "form"}, [{"a": ["o4", "o1"], "b": ["o2"], "c": ["o3"]}, {"a": ["o1", "o2"], "b": ["o1", "o3"]}], ["a", "b", "c"], ["mine", "yours"], ["form"],
                [1, 8], 18, None if t else 300)
    check_world(ck, "race", {"o1": ("mine", "g1", {}), "o2": ("size_rolling_file", "g1", {"file": "o2.log"})}, {"g1": "form"},
                [{"a": ["o1", "o2"]}], ["a"], ["mine"], ["form"], [1, 2], 8, 24 if t else 6, stress=60 if t else 40, race=True)
    check_world(ck, "stress", {"o1": ("mine", "g1", {}), "o2": ("size_rolling_file", "g1", {"file": "o2.log"})}, {"g1": "form"},
                [{"a": ["o1", "o2"]}], ["a"], ["mine"], ["form"], [1, 2], 8, 60 if t else 16, stress=60)
