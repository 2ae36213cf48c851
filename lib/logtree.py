"""C01-C04, C06, C21 (and the histories of C05): the LogTree specification against the real library."""
import json
from core import *

DEFAULT_FMT = {"c1": "f1"}


def toks(name):
    """"a/b.c" -> ["a", "/", "b", ".", "c"]"""
    out = []
    for part in re.split(r"([/.])", name):
        if part:
            out.append(part)
    return out


def conf(loggers, outputs, formats):
    """loggers: [(name, level, outs)], outputs: [(name, type, thr, fmt)], formats: [(name, type)]"""
    return {"loggers": [{"name": toks(n), "level": l, "outs": list(o)} for n, l, o in loggers],
            "outputs": [{"name": n, "type": t, "thr": th, "fmt": f} for n, t, th, f in outputs],
            "formats": [{"name": n, "type": t} for n, t in formats]}


class World:
    def __init__(self, name, names, configs=(), cfg0=0, levels=(), outs=(), fields=(), slots=0, bad=(), closes=0,
                 probe=(0, 1, 2, 3, 4, 5, 6, 7, 8, 9), depth=14, extra_constraint=None, signals=False):
        self.signals = signals     # the manager is closed by signals, too
        self.name, self.names, self.configs, self.cfg0 = name, [toks(n) for n in names], list(configs), cfg0
        self.levels, self.outs, self.fields, self.slots = set(levels), [list(o) for o in outs], [[list(f) for f in fs] for fs in fields], slots
        self.bad, self.closes, self.probe, self.depth = list(bad), closes, list(probe), depth
        self.constraint = extra_constraint
        users = sorted({o for l in self.outs for o in l})
        self.consts = {"NameSeq": self.names, "Configs": self.configs, "Cfg0": cfg0,
                       "SetLevels": self.levels, "SetOuts": self.outs,
                       "UserOuts": [{"name": u, "type": "rec", "thr": "", "fmt": ""} for u in users],
                       "FieldSets": self.fields, "Slots": slots, "BadDocs": len(self.bad), "MaxCloses": closes}
        words = {l["level"] for c in self.configs for l in c["loggers"]} | {o["thr"] for c in self.configs for o in c["outputs"]}
        self.consts["Spellings"] = [[w, w.upper()] for w in sorted(words)]
        self.types = {"c1": "console", "stdout": "console"}
        for u in users:
            self.types[u] = "rec"
        for c in self.configs:
            for o in c["outputs"]:
                self.types[o["name"]] = o["type"]

    INV = ["TypeOK", "AncestorsExist", "LevelRule", "RouteRule", "OutputsExist"]
    PROP = ["ConfigGoverns", "LaterBinding", "OneInstance"]

    def graph(self, ck):
        body = ""
        if self.constraint:
            body = "WorldConstraint == " + self.constraint
        return state_graph(ck, "MC_" + self.name, "LogTree", self.consts, self.INV, self.PROP, body=body,
                           constraint="WorldConstraint" if self.constraint else None)


FORMS = ["struct", "yaml", "json", "YML", "file.yaml", "file.json", "file.YML", "Json", "file.yml"]


def script(world, path, rng, directory):
    steps = []
    for i, (a, t) in enumerate(path):
        st = {"Op": a["op"], "Probe": True}
        if "name" in a:
            st["Name"] = a["name"]
        if a["op"] == "config":
            st["Cfg"], st["Form"] = a["cfg"], rng.choice(FORMS)
        elif a["op"] == "level":
            st["Lvl"] = a["lvl"]
        elif a["op"] == "outs":
            st["Outs"] = a["outs"]
        elif a["op"] == "writer":
            st["Slot"], st["Fields"], st["WithCtx"] = a["slot"], a["fields"], rng.random() < 0.3
        elif a["op"] == "refuse":
            st["Doc"] = a["doc"]
        steps.append(st)
    # at the end: every logger asked for again (implicit ancestors included), identity, probe
    steps.append({"Op": "final"})
    # loggers nobody else uses, obtained at some step where the root exists
    gets = [i for i, st in enumerate(steps) if st["Op"] == "get"]
    crowd = rng.choice([300, 700, 1500]) if gets and rng.random() < 0.04 else 0
    return {"Crowd": crowd, "CrowdAt": rng.randrange(gets[0] + 1, len(steps)) if gets else 0, "Dir": directory, "Configs": world.configs, "Cfg0": world.cfg0, "Bad": world.bad, "Steps": steps,
            "Levels": world.probe, "End": rng.choice(["", "TERM", "INT", "both"]) if world.signals else "", "Quiet": 60}


def expand(world, path, obs, sc):
    """Adds to the script the final requests for every logger the model has; returns expectations per step."""
    exp = [obs[t] for a, t in path]
    steps = sc["Steps"]
    steps.pop()
    last = exp[-1]
    for l in last["loggers"]:
        steps.append({"Op": "get", "Name": l["name"] if l["name"] != ["root"] else [], "Probe": False})
        exp.append(None)
    steps.append({"Op": "identity", "Probe": True})
    exp.append(last)
    if world.signals:
        for l in last["loggers"]:
            steps.append({"Op": "burst", "Name": l["name"] if l["name"] != ["root"] else [], "Lvl": 150})
            exp.append(None)
    return exp


def strip(o):
    return o.split("#")[0]


def compare(world, path, exp, sc, res, aspects):
    """Differences between what the real library did and the specification's states."""
    bad = []
    asyncs = {o: [] for o, t in world.types.items() if t in ASYNC}
    insts = {}
    last = [e for e in exp if e][-1]

    def diff(i, kind, text):
        if kind in aspects:
            bad.append("step %d (%s): %s" % (i + 1, json.dumps(path[i][0]) if i < len(path) else sc["Steps"][i]["Op"], text))

    for i, st in enumerate(res["Steps"]):
        if st["Panic"]:
            diff(i, "panic", st["Panic"][:1500])
            return bad
        for s in st["Same"] or []:
            diff(i, "identity", s)
        op = sc["Steps"][i]["Op"]
        if op == "config" and st["Err"]:
            diff(i, "accept", "configuration refused in form %s: %s" % (sc["Steps"][i].get("Form"), st["Err"]))
        if op == "refuse" and not st["Err"]:
            diff(i, "accept", "no error for document %s" % json.dumps(world.bad[sc["Steps"][i]["Doc"] - 1])[:300])
        e = exp[i]
        if op == "burst":
            nm = "".join(sc["Steps"][i]["Name"]) or "root"
            for o in [l for l in last["loggers"] if "".join(l["name"]) == nm][0]["deliv"][8]:
                if world.types[o] in ASYNC:
                    asyncs[o] += ["%s|7|b%d.||" % (nm, k) for k in range(sc["Steps"][i]["Lvl"])]
        if e is None:
            continue
        want = {"".join(l["name"]): l for l in e["loggers"]}
        held = set()
        for l in st["Loggers"] or []:
            w = want.get(l["Name"])
            held.add(l["Name"])
            if w is None:
                diff(i, "harness", "logger %s not expected" % l["Name"])
                continue
            if l["Level"] != w["level"]:
                diff(i, "level", "Level() of %s is %d, expected %d" % (l["Name"], l["Level"], w["level"]))
            for m, en in enumerate(l["Enabled"]):
                if en != (m >= w["level"]):
                    diff(i, "level", "LevelEnabled(%d) of %s is %s with level %d" % (m, l["Name"], en, w["level"]))
            for k, en in enumerate(l["Named"]):
                if en != (k + 2 >= w["level"]):
                    diff(i, "level", "%sEnabled of %s is %s with level %d" % (
                        ["Trace", "Debug", "Info", "Warn", "Error", "Critical"][k], l["Name"], en, w["level"]))
            for m in l["Msgs"]:
                wo = w["deliv"][m["Level"] + 1]
                got = sorted(strip(o) for o in m["Outs"] or [])
                for o in m["Outs"] or []:
                    insts.setdefault(strip(o), set()).add(o)
                ex = sorted(o for o in wo if world.types[o] not in ASYNC)
                for o in wo:
                    if world.types[o] in ASYNC:
                        asyncs[o].append("%s|%d|%s||" % (l["Name"], m["Level"] if 1 <= m["Level"] <= 8 else -1, m["Msg"]))
                if got != ex:
                    passed = m["Level"] >= w["level"]
                    kind = "gate" if bool(got) != bool(ex) and (not passed or not got) else "route"
                    diff(i, kind, "%s at level %d through %s arrived at %s, expected %s (effective level %d)" % (
                        m["How"], m["Level"], l["Name"], got, ex, w["level"]))
                for b in m["Bad"] or []:
                    diff(i, "fields" if b.startswith("fields") else "record", "%s through %s: %s" % (m["How"], l["Name"], b))
        for m in st["Writers"] or []:
            w = e["writers"][m["Level"] - 1]
            f = w["fields"]
            ex = sorted("%s|%s|%s" % (o, f[0], f[1]) if o not in ("c1", "stdout") else o for o in w["outs"] if world.types[o] not in ASYNC)
            got = sorted(re.sub(r"#\d+", "", o) for o in m["Outs"] or [])
            for o in w["outs"]:
                if world.types[o] in ASYNC:
                    asyncs[o].append("%s|7|%s|%s|%s" % ("".join(w["on"]), m["Msg"], f[0], f[1]))
            if [strip(x.split("|")[0]) for x in got] != [x.split("|")[0] for x in ex]:
                diff(i, "route", "writer %d on %s: arrived at %s, expected %s" % (m["Level"], "".join(w["on"]), got, ex))
            elif got != ex:
                diff(i, "fields", "writer %d on %s: arrived as %s, expected %s" % (m["Level"], "".join(w["on"]), got, ex))
            for b in m["Bad"] or []:
                diff(i, "record", "writer %d: %s" % (m["Level"], b))
    n = len(res["Steps"]) - 1
    for o, s in insts.items():
        if len(s) > 1:
            diff(n, "instances", "messages for output %s went to several instances %s" % (o, sorted(s)))
    for o, k in res["Made"].items():
        if k != 1:
            diff(n, "instances", "output %s was created %d times" % (o, k))
    if res["Final"]:
        diff(n, "panic", "closing the manager: " + res["Final"][:1500])
    users = {u["name"] for u in world.consts["UserOuts"]}
    for o, cs in res["Closed"].items():
        if o not in users and any(c < 1 for c in cs):
            diff(n, "close", "output %s was not closed with the manager" % o)
    for o, ex in asyncs.items():
        got = res["Async"].get(o, [])
        if got != ex:
            k = next((j for j in range(max(len(got), len(ex))) if j >= len(got) or j >= len(ex) or got[j] != ex[j]), 0)
            diff(n, "async", "asynchronous output %s after closing has %d messages, expected %d; first difference at %d: %s / %s" % (
                o, len(got), len(ex), k, got[k:k + 1], ex[k:k + 1]))
    return bad


ASYNC = ("async", "acon")
ALL = {"panic", "identity", "accept", "level", "gate", "route", "fields", "record", "instances", "close", "async", "harness"}


def run_walk(ck, binary, world, path, obs, aspects, seed, patience=1):
    rng = random.Random(seed)
    d = ck.dir("w")
    sc = script(world, path, rng, d)
    sc["Quiet"] *= patience
    exp = expand(world, path, obs, sc)
    run = run_harness(binary, "tree", sc, timeout=60, cwd=d)
    shutil.rmtree(d, ignore_errors=True)
    if run.crashed:
        return ["the process died: " + run.err[:1500]], sc
    res = result(run)
    return compare(world, path, exp, sc, res, aspects), sc


QUICK_WALKS = 700


def check_world(ck, world, aspects=ALL, limit=None, filt=None, maxlen=None):
    if limit is None and not ck.thorough:
        limit = QUICK_WALKS
    binary = build(ck)
    g = world.graph(ck)
    start = g.start
    paths = g.walks(ck.rng, start, maxlen or world.depth, limit, filt)
    if not paths:
        raise ToolError("no walks in world " + world.name)
    ops = {}
    for p in paths:
        for a, _ in p:
            ops[a["op"]] = ops.get(a["op"], 0) + 1
    ck.log("world %s: %d states, %d transitions, %d walks, actions %s" % (world.name, len(g.obs), g.ntrans, len(paths), ops))
    ck.cov.setdefault("worlds", {})[world.name] = {"states": len(g.obs), "transitions": g.ntrans, "walks": len(paths), "actions": ops}
    seeds = [ck.rng.random() for _ in paths]
    stop = []

    def one(k):
        if len(stop) >= 3:
            return None
        bad, sc = run_walk(ck, binary, world, paths[k], g.obs, aspects, seeds[k])
        if bad:
            again, _ = run_walk(ck, binary, world, paths[k], g.obs, aspects, seeds[k], 80)
            if again:
                stop.append((bad, sc))
        return True
    n = sum(1 for x in parallel(one, range(len(paths))) if x)
    ck.add("traces_validated_against_impl", n)
    ck.add("steps_replayed", sum(len(p) for p in paths))
    ck.sample({"world": world.name, "walk": [a for a, _ in paths[0]]})
    for bad, sc in stop[:3]:
        ck.violation("world %s: %s" % (world.name, "; ".join(bad[:4])), {"script": sc, "differences": bad[:20]})


# ------------------------------------------------------------------------------------------------ worlds

F = [("fa", "text"), ("fb", "text")]


DEEP = "a/b.c/d.e/f/g/h.i/j.k/l/m/n.o/p/q.r/s/t.u/v/w/x"


def upto(n):
    """the first n elements of the deep name"""
    return "".join(toks(DEEP)[:2 * n - 1])


def worlds_levels(ck):
    """C01: every assignment of levels to a chain, by configuration and at run time."""
    names = ["", "a", "a/b", "a/b.c"]
    lv = [0, 3, 6, 8] if not ck.thorough else [0, 1, 3, 5, 8]
    o = [("o1", "rec", "", "fa")]
    c1 = conf([("root", "WARN", ["o1"]), ("a", "deBUG", [])], o, F)
    c2 = conf([("root", "oFf", ["o1"]), ("a/b", "tRACE", []), ("a", "nosuch", []), ("a/b.c", "erroR", [])], o, F)
    c3 = conf([("a", "", ["o1"]), ("a/b.c", "All", [])], o, F)
    ws = [World("lv1", names[1:], [c1, c2, c3], 1, levels=lv[:3], depth=16),
          World("lv2", ["a/b"], [c1], 1, levels=lv if not ck.thorough else [0, 1, 2, 3, 4, 5, 6, 7, 8], depth=20)]
    # every spelling of every level name
    spell = ["all", "trace", "debug", "info", "warn", "error", "critical", "off", "Info", "CRITICAL", "xx", "", "ALL", "Trace", "OFF"]
    cs = [conf([("root", s, ["o1"]), ("a", "info", ["o1"])], o, F) for s in spell]
    cs += [conf([("root", "info", ["o1"]), ("a", s, ["o1"])], o, F) for s in spell]
    ws.append(World("lv3", ["a"], cs, 1, levels=[], depth=25))
    c4 = conf([("root", "warn", ["o1"]), (upto(1), "debug", [])], o, F)
    c5 = conf([(upto(8), "error", []), (upto(23), "none", ["o1"])], o, F)
    ws.append(World("lvdeep", [DEEP, upto(11)], [c4, c5], 1, depth=12))
    ws.append(World("lv4", ["", "x.y.z"], [], 0, levels=[0, 4, 7, 9, -1], depth=16, probe=[-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]))
    return ws


def worlds_routes(ck):
    names = ["a", "a/b", "a/b/c"]
    outs = [("o1", "rec", "", "fa"), ("o2", "file", "warn", "fb"), ("o3", "console", "eRror", "fc")]
    f3 = F + [("fc", "text")]
    c1 = conf([("root", "all", ["o1"]), ("a", "debug", ["o2", "o1", "o3"]), ("a/b", "", [])], outs, f3)
    c2 = conf([("root", "info", ["o3", "o2"]), ("a", "", []), ("a/b", "warn", ["o1"]), ("a/b/c", "", [])], outs, f3)
    ws = [World("rt1", names, [c1, c2], 1, outs=[["u1"], [], ["u2", "u1"]], depth=12, probe=[0, 1, 3, 4, 5, 6, 7, 8])]
    # every threshold on both kinds of output
    th = ["", "all", "trace", "debug", "info", "warn", "error", "critical", "off", "nosuch", "WARN"]
    outs = [("p%d" % i, "file", t, "ff%d" % i) for i, t in enumerate(th)] + [("q%d" % i, "console", t, "fg%d" % i) for i, t in enumerate(th)]
    fm = [("ff%d" % i, "text") for i in range(len(th))] + [("fg%d" % i, "text") for i in range(len(th))]
    c = conf([("root", "all", ["p%d" % i for i in range(len(th))]), ("x", "all", ["q%d" % i for i in range(len(th))]),
              ("y", "all", ["q%d" % i for i in range(len(th))] + ["p%d" % i for i in range(len(th))])], outs, fm)
    ws.append(World("rt2", ["", "x", "y", "y.z"], [c], 1, depth=20))
    outs = [("p%d" % i, "async", t, "ff%d" % i) for i, t in enumerate(th)] + [("q%d" % i, "acon", t, "fg%d" % i) for i, t in enumerate(th)]
    c = conf([("root", "all", ["p%d" % i for i in range(len(th))]), ("x", "all", ["q%d" % i for i in range(len(th))])], outs, fm)
    ws.append(World("rt5", ["", "x", "x/y"], [c], 1, closes=1, depth=8))
    # outputs inherited over many levels, many outputs, all on one list
    many = [("m%d" % i, "rec", "", "fa") for i in range(24)]
    outs = many + [("o1", "rec", "", "fa"), ("o2", "file", "info", "fb")]
    c = conf([("root", "all", [m[0] for m in many[12:]]), (upto(1), "", ["o2"] + [m[0] for m in many]), ("b", "", [])], outs, f3)
    c9 = conf([(upto(2), "info", ["o1"]), (upto(21), "all", []), ("b", "warn", [m[0] for m in reversed(many)] + ["o2"])], outs, f3)
    ws.append(World("rtmany", [DEEP, "b", upto(1)], [c, c9], 1, depth=9, probe=[2, 4, 6]))
    # without any configuration: the built-in one, and a root the configuration does not name
    ws.append(World("rt3", ["", "a", "a/b"], [conf([("a", "info", [])], [], [])], 0, outs=[["u1"], []], depth=10))
    if ck.thorough:
        ws.append(World("rt4", ["a", "a/b", "a/b/c", "d"], [c1, c2], 1, outs=[["u1"], []], depth=14, probe=[1, 4, 6, 7]))
    return ws


def worlds_hier(ck):
    o = [("o%d" % i, "rec", "", "fa") for i in range(1, 7)]
    ws = []
    # order of obtaining loggers: ancestors after descendants and the other way round
    c = conf([("root", "warn", ["o1"]), ("a", "debug", ["o2"]), ("a/b", "error", ["o3"]), ("a/b.c", "", []), ("a.b", "info", ["o4"])], o, F)
    c2 = conf([("a", "info", ["o5"]), ("a/b.c", "all", ["o6"])], o, F)
    ws.append(World("hi1", ["", "root", "a", "a/b", "a/b.c", "a.b", "a/b.c/d"], [c, c2], 1, depth=8, probe=[3, 5, 7]))
    # separators in every position
    c = conf([("root", "warn", ["o1"]), ("a", "debug", ["o2"]), ("/a", "info", ["o3"]), ("a/", "", ["o4"]), ("a//b", "error", ["o5"]),
              ("/", "all", ["o6"])], o, F)
    ws.append(World("hi2", ["/", "/a", "a/", "a//b", "//", ".a./b", "a/."], [c], 1, depth=8, probe=[4, 6, 7]))
    c = conf([("root", "info", ["o1"]), ("root/x", "debug", ["o2"]), (".", "warn", ["o3"]), ("é", "debug", ["o4"]), ("é/ü", "", [])], o, F)
    c9 = conf([("root", "info", ["o1"]), (upto(3), "debug", ["o2"]), (upto(9), "", []), (upto(20), "warn", [])], o, F)
    ws.append(World("hideep", [DEEP, upto(3), upto(19), DEEP + "." + DEEP.replace("/", "_"), "a"], [c9, c2], 1, depth=8, probe=[3, 5, 7]))
    ws.append(World("hi3", ["root/x", "root.", ".", "..", "é/ü.ö", "A/a", "a/A", "root"], [c], 1, depth=8, probe=[3, 5, 7]))
    if ck.thorough:
        ws.append(World("hi4", ["x", "x.y", "x.y/z", "x/y", "x/y.z", "", "x.y/z.w/v"], [conf([("x", "warn", ["o1"]), ("x.y", "", ["o2"]), ("x.y/z.w", "error", [])], o, F)],
                        1, depth=8, probe=[3, 5, 7]))
    return ws


BADDOCS = [
    {"Form": "nofile", "Ext": "yaml"},
    {"Form": "nofile", "Ext": "json"},
    {"Form": "bytes", "Ext": "toml", "Text": "loggers:\n  - name: root\n    level: off\n"},
    {"Form": "bytes", "Ext": "", "Text": "loggers:\n  - name: root\n    level: off\n"},
    {"Form": "file", "Ext": "", "Text": "loggers:\n  - name: root\n    level: off\n"},
    {"Form": "file", "Ext": ".txt", "Text": "loggers:\n  - name: a\n    level: off\n"},
    {"Form": "bytes", "Ext": "json", "Text": '{"loggers":[{"name":"root","level":"off"}'},
    {"Form": "bytes", "Ext": "yaml", "Text": "loggers: [ {name: root, level: off}\n  - : :"},
    {"Form": "bytes", "Ext": "yml", "Text": "loggers: 5\n"},
    {"Form": "bytes", "Ext": "json", "Text": "loggers:\n  - name: root\n    level: off\n"},
    {"Form": "bytes", "Ext": "yaml", "Text": "loggers:\n  - name: a\n    level: off\n  - name: a\n    level: all\n"},
    {"Form": "bytes", "Ext": "yaml", "Text": "loggers:\n  - name: root\n    level: off\n    outputs: [nosuch]\n"},
    {"Form": "bytes", "Ext": "yaml", "Text": "formats:\n  - {name: f, type: text, layout: '%{msg}'}\n  - {name: f, type: text, layout: '%{msg}'}\nloggers:\n  - {name: a, level: off}\n"},
    {"Form": "bytes", "Ext": "json", "Text": '{"outputs":[{"name":"o1","type":"console","format":"nosuch"}],"loggers":[{"name":"a","level":"off"}]}'},
    {"Form": "file", "Ext": ".json", "Text": '{"formats":[{"name":"f","type":"text","layout":"%{msg}"}],"outputs":[{"name":"o1","type":"console","format":"f"},{"name":"o1","type":"console","format":"f"}],"loggers":[{"name":"a","level":"off"},{"name":"root","level":"off"}]}'},
    {"Form": "struct", "Cfg": {"formats": [{"name": "f", "type": "text", "layout": "%{msg}"}, {"name": "f", "type": "text", "layout": "%{msg}"}],
                               "loggers": [{"name": "root", "level": "off"}, {"name": "a", "level": "off"}]}},
    {"Form": "struct", "Cfg": {"loggers": [{"name": "a", "level": "off"}, {"name": "b", "level": "off", "outputs": ["x"]}]}},
    {"Form": "struct", "Cfg": {"loggers": [{"name": "a", "level": "off"}, {"name": "a", "level": "off"}]}},
]


def worlds_config(ck):
    o = [("o1", "rec", "", "fa"), ("o2", "rec", "", "fb"), ("o3", "file", "warn", "fa")]
    cA = conf([("root", "warn", ["o1"]), ("a", "debug", ["o2"]), ("a/b", "", [])], o, F)
    cB = conf([("a", "error", ["o1", "o2"]), ("a/b", "trace", ["o2"]), ("c", "info", ["o3"])], o, F)
    cC = conf([], [], [])
    ws = [World("cf1", ["", "a", "a/b", "c"], [cA, cB, cC], 1, depth=10, probe=[2, 4, 6, 7]),
          World("cf2", ["a", "a/b"], [cA, cB], 1, levels=[0, 4], outs=[["u1"], []], depth=12, probe=[2, 4, 6])]
    # outputs that cannot be created: of an unknown type, with a failing creator, with an unusable format
    ob = [("o1", "rec", "", "fa"), ("x1", "nosuch", "", "fa"), ("x2", "bad", "", "fa"), ("x3", "rec", "", "fx"), ("o2", "rec", "", "fb"),
          ("x4", "rec", "", "fy")]
    fb = F + [("fx", "badfmt"), ("fy", "nosuch")]
    cX = conf([("root", "error", ["o1"]), ("a", "info", ["x1"]), ("a/b", "trace", ["o1", "x2"]), ("c", "info", ["o2"])], ob, fb)
    cY = conf([("root", "info", ["x3"]), ("a", "warn", ["o2"]), ("a/b", "error", ["o2"]), ("c", "debug", ["o1", "x4"])], ob, fb)
    ws.append(World("cf3", ["a", "a/b", "c"], [cX, cY], 1, depth=10, probe=[2, 4, 6]))
    ws.append(World("cf4", ["", "a"], [cX, cY], 0, outs=[["u1"]], depth=10, probe=[2, 4, 6]))
    return ws


def worlds_bad(ck):
    o = [("o1", "rec", "", "fa"), ("o2", "rec", "", "fb")]
    cA = conf([("root", "warn", ["o1"]), ("a", "debug", ["o2"])], o, F)
    cB = conf([("a", "error", ["o1", "o2"]), ("b", "info", ["o2"])], o, F)
    return [World("bd1", ["a", "b"], [cA, cB], 1, bad=BADDOCS, depth=14, probe=[2, 4, 6, 7]),
            World("bd2", ["a"], [cA], 0, levels=[5], bad=BADDOCS, depth=14, probe=[2, 4, 6, 7])]


def worlds_fields(ck):
    fs = [[("k1", "v1")], [("k2", "w2"), ("k1", "x1")], [], [("k1", "y1"), ("k1", "z1")]]
    o = [("o1", "rec", "", "fa"), ("o2", "file", "", "fb"), ("o3", "console", "", "fc"), ("o4", "async", "", "fd")]
    f4 = F + [("fc", "text"), ("fd", "text")]
    c1 = conf([("root", "all", ["o1", "o3"]), ("a", "", ["o2", "o4"])], o, f4)
    c2 = conf([("root", "all", ["o4"]), ("a", "", []), ("a/b", "", ["o1", "o2"])], o, f4)
    return [World("fd1", ["a/b"], [c1], 1, fields=fs, slots=2, depth=14, probe=[7]),
            World("fd2", ["a", "a/b/c"], [c1, c2], 1, fields=fs[:2], slots=1, depth=14, probe=[6, 7]),
            # many fields, inherited over many levels
            World("fdmany", [upto(6)], [c1], 1, fields=[[(n, "u") for n in ["f%d" % i for i in range(40)] + ["msg", "level", "module", "time", "__caller_info", "_extend", "", "%", "K1", "k1 "]] + [("k1", "v1"), ("k2", "w2")],
                                                             [("k1", "a1"), ("k2", "b2"), ("k1", "c1"), ("k2", "d2"), ("k1", "e1")] + [("k1%d" % i, "q") for i in range(30)]],
                  slots=1, depth=8, probe=[7]),
            # values that print alike
            World("fd3", ["a"], [c1], 1, fields=[[("k1", "int:1")], [("k1", "1"), ("k2", "v1")], [("k1", "int64:1")], [("k1", "float64:1")], [("k1", "bool:true"), ("k2", "int:1")],
                                                 [("k1", "true")], [("k1", "v1")], [("k1", "main.word:v1")]], slots=2, depth=14, probe=[7])]


def worlds_instances(ck):
    o = [("o1", "rec", "", "fa"), ("o2", "rec", "", "fb"), ("o3", "async", "info", "fc"), ("o4", "acon", "", "fd")]
    f4 = F + [("fc", "text"), ("fd", "text")]
    c1 = conf([("root", "all", ["o1", "o3"]), ("a", "", ["o2", "o4", "o1"]), ("b", "info", ["o3", "o2"])], o, f4)
    c2 = conf([("root", "all", ["o3"]), ("a", "warn", ["o1", "o4"]), ("a/b", "", ["o4", "o2"])], o, f4)
    # outputs that the configuration in force does not have any more
    c3 = conf([("a", "warn", ["o1"]), ("b", "", [])], o[:1], F[:1])
    c4 = conf([("c", "info", ["o5"])], [("o5", "rec", "", "fa")], F[:1])
    return [World("in3", ["a", "b", "c"], [c1, c3, c4], 1, closes=2, depth=12, probe=[3, 4, 7], signals=True),
            World("in1", ["a", "b", "a/b"], [c1, c2], 1, closes=2, depth=12, probe=[3, 4, 7], signals=True),
            World("in2", ["", "b", "c"], [c1, c2], 0, closes=1, outs=[["u1"]], depth=12, probe=[3, 5], signals=True)]


def worlds_mixed(ck):
    """Everything at once; explored by walks over the whole graph of a small forest."""
    o = [("o1", "rec", "", "fa"), ("o2", "file", "error", "fb"), ("o3", "rec", "", "fb")]
    cA = conf([("root", "warn", ["o1"]), ("a", "debug", ["o2"]), ("a/b", "", ["o3"])], o, F)
    cB = conf([("a", "nosuch", ["o1", "o2"]), ("a/b", "trace", [])], o, F)
    return [World("mx1", ["a", "a/b"], [cA, cB], 1, levels=[0, 5], outs=[["u1"], []], fields=[[("k1", "v1")]], slots=1,
                  bad=BADDOCS[:3], depth=12, probe=[2, 4, 6, 7])]
