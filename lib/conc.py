"""C03, C04, C21, C23: the outcomes of concurrent programs, by the specification Conc and by the real library."""
from core import *
from logtree import conf, toks


def op(o, name="", arg=0, arg2=0):
    return {"op": o, "name": toks(name), "arg": arg, "arg2": arg2}


def G(n): return op("get", n)
def C(i): return op("config", "", i)
def L(n, v): return op("level", n, v)
def O(n, k): return op("outs", n, k)
def M(n, v=7): return op("log", n, v)
def Q(n): return op("query", n)
def R(n): return op("resolve", n)
def A(p, n): return op("after", "", p, n)


F = [("f", "text")]
OUTS = [("r0", "rec", "", "f"), ("o1", "rec", "", "f"), ("o2", "rec", "", "f"), ("o3", "rec", "", "f"), ("h1", "rec", "", "f"), ("bad", "bad", "", "f")]
CONFIGS = [
    conf([("root", "error", ["r0"]), ("t", "warn", ["o1"]), ("t/a", "", []), ("t/a.b", "debug", [])], OUTS, F),     # 1: the first
    conf([("t", "info", ["o2"]), ("t/a", "error", ["o3", "o1"])], OUTS, F),                                         # 2
    conf([("t", "error", ["o1", "o2"]), ("t/a", "", []), ("t/a.b", "", ["o2"])], OUTS, F),                            # 3
    conf([("t", "off", ["h1", "o2"]), ("t/a", "all", ["h1", "o3"]), ("t/a.b", "warn", [])], OUTS, F),                # 4
    conf([("t", "debug", ["o1", "bad"]), ("t/a", "warn", ["o3"])], OUTS, F),                                         # 5: t cannot be bound
    conf([("t", "trace", []), ("t/a", "trace", ["o2"])], OUTS, F),                                                   # 6
]
SETOUTS = [[], ["u1"], ["u2", "u1"], ["hu", "u2"], ["u3"]]
NAMES = ["t", "t/a", "t/a.b"]


class Prog:
    def __init__(self, setup, *procs):
        self.setup, self.procs = [toks(n) for n in ["root"] + list(setup)], [list(p) for p in procs]
        names = []
        for n in list(self.setup) + [o["name"] for p in procs for o in p if o["op"] == "get"]:
            n = "".join(n)
            parts = [n[:i] for i, c in enumerate(n) if c in "/." and i] + [n]
            names += [x for x in parts if x not in names]
        self.all = ["root"] + [n for n in names if n != "root"]

    def tla(self):
        return {"setup": self.setup, "procs": self.procs}


def outcomes(ck, progs, name, split=False, expect_ok=True, endless=False):
    """All outcomes of each program (endless: all results of each operation); the properties are checked on the way."""
    outs = [set() for _ in progs]

    def feed(s):
        r = json.loads(s[1:])
        outs[r["prog"] - 1].add((r["proc"], r["pos"], ",".join(str(x) for x in r["res"])) if endless else canon(r))
    users = sorted({o for l in SETOUTS for o in l})
    words = {l["level"] for c in CONFIGS for l in c["loggers"]} | {""}
    # a stable order of the names for the canonical form of states
    consts = {"NameSeq": [toks(n) for n in NAMES + ["t/x", "t/x/y"]], "Configs": CONFIGS, "Cfg0": 1, "SetLevels": Raw("{}"), "SetOuts": SETOUTS,
              "UserOuts": [{"name": u, "type": "rec", "thr": "", "fmt": ""} for u in users], "FieldSets": Raw("<<>>"), "Slots": 0,
              "BadDocs": 0, "Spellings": [[w, w.upper()] for w in sorted(words)], "MaxCloses": 0,
              "Programs": [p.tla() for p in progs], "SplitChain": split, "Endless": endless}
    cfg = ("INIT CInit\nNEXT CNext\nCHECK_DEADLOCK TRUE\nINVARIANT CAncestors\nINVARIANT Converged\nINVARIANT PrintOutcome\n"
           "PROPERTY OneList\nPROPERTY GateHolds\nPROPERTY COneInstance\n")
    r = run_tlc(ck, "MC_" + name, "Conc", consts, cfg=cfg, timeout=850, on_print=feed, expect_ok=expect_ok, heap="4g")
    ck.log("model %s: %d programs, %d states" % (name, len(progs), r.distinct))
    if not expect_ok:
        return r
    for p, o in zip(progs, outs):
        if not o:
            raise ToolError("a program has no outcome: %s" % p.procs)
    return outs


def canon(r):
    f = [["".join(x["name"]), x["level"], x["outs"]] for x in r["final"]]
    return json.dumps([r["res"], sorted(f), [m for m in r["made"] if m not in ("r0", "c1")]])


def real(ck, progs, idx, reps, race, rng, procs):
    """Runs the programs with numbers idx many times each; returns per program {outcome: count}, complaints and race reports."""
    binary = build(ck, "main", race=race)
    seen = [{} for _ in progs]
    bads, races = [], []
    chunk = 120 if race else 300
    runs = [i + 1 for i in idx for _ in range(reps)]
    rng.shuffle(runs)
    shards = [(runs[i:i + chunk], rng.getrandbits(40)) for i in range(0, len(runs), chunk)]
    base = {"Dir": ck.tmp, "Configs": CONFIGS, "Cfg0": 1, "SetOuts": SETOUTS,
            "Progs": [{"Setup": p.setup, "Procs": p.procs, "All": p.all} for p in progs]}

    def one(sh):
        d = ck.dir("c")
        run = run_harness(binary, "conc", dict(base, Runs=sh[0], Seed=sh[1]), timeout=180, cwd=d,
                          env={"GORACE": "halt_on_error=0 exitcode=0"} if race else None)
        shutil.rmtree(d, ignore_errors=True)
        return run
    for run in parallel(one, shards, procs):
        if race and "DATA RACE" in run.err:
            races.append(race_report(run.err))
        if run.crashed:
            bads.append((None, "the process died: " + run.err[:1500]))
            continue
        r = result(run)
        if "Stuck" in r:
            bads.append((None, "calls that do not return: " + r["Stuck"][:3000]))
        for s, n in r["Counts"].items():
            o = json.loads(s)
            if o.get("bad"):
                bads.append((o["prog"], "; ".join(o["bad"][:3])))
                continue
            k = canon(o)
            seen[o["prog"] - 1][k] = seen[o["prog"] - 1].get(k, 0) + n
    return seen, bads, races


def race_report(err):
    i = err.index("WARNING: DATA RACE")
    rep = err[i:].split("==================")[0]
    return rep if "zz_verif" not in rep or "log4g/internal" in rep else ""


def describe(p):
    return {"setup": ["".join(n) for n in p.setup],
            "goroutines": [["%s %s %s" % (o["op"], "".join(o["name"]), o["arg"]) for o in q] for q in p.procs]}


def check_programs(ck, progs, reps, race_reps, name="conc"):
    shards = [list(range(i, len(progs), 4)) for i in range(4)] if len(progs) >= 8 else [list(range(len(progs)))]
    allowed = [None] * len(progs)

    def model(ish):
        k, idx = ish
        for i, o in zip(idx, outcomes(ck, [progs[j] for j in idx], "%s%d" % (name, k))):
            allowed[i] = o
    parallel(model, [(k, s) for k, s in enumerate(shards) if s])
    ck.log("%s: %d programs with %d outcomes" % (name, len(progs), sum(len(a) for a in allowed)))
    total = distinct = 0
    for race, n in ((False, reps), (True, race_reps)):
        if not n:
            continue
        seen, bads, races = real(ck, progs, range(len(progs)), n, race, ck.rng, 3)
        for k, text in bads[:3]:
            ck.violation("%s%s" % (text, " in program %s" % json.dumps(describe(progs[k - 1])) if k else ""), {"program": progs[k - 1].procs if k else None})
        for rep in [r for r in races if r][:2]:
            ck.violation("data race: " + rep[:2500], {"race": rep})
        for i, s in enumerate(seen):
            total += sum(s.values())
            distinct += len(s)
            for o in s:
                if o not in allowed[i]:
                    ck.violation("an outcome the specification does not have: %s of program %s" % (o, json.dumps(describe(progs[i]))),
                                 {"program": progs[i].procs, "setup": progs[i].setup, "outcome": json.loads(o), "allowed": sorted(allowed[i])[:50]})
        ck.log("%s%s: %d runs, %d distinct outcomes seen, %d races" % (name, " with the race detector" if race else "", sum(sum(s.values()) for s in seen),
                                                                   sum(len(s) for s in seen), len(races)))
    ck.add("traces_validated_against_impl", total)
    ck.cov.setdefault("programs", {})[name] = {"programs": len(progs), "outcomes_of_the_model": sum(len(a) for a in allowed), "runs": total, "outcomes_seen": distinct}
    ck.sample({"program": describe(progs[0])})


def check_endless(ck, progs, millis, race_millis, reps=2, name="endless"):
    """Programs repeated for ever: every result of an operation is one that the specification has for it."""
    allowed = [None] * len(progs)
    shards = [list(range(i, len(progs), 4)) for i in range(4)]

    def model(ish):
        for i, o in zip(ish[1], outcomes(ck, [progs[j] for j in ish[1]], "%s%d" % (name, ish[0]), endless=True)):
            allowed[i] = o
    parallel(model, [(k, s) for k, s in enumerate(shards) if s])
    base = {"Configs": CONFIGS, "Cfg0": 1, "SetOuts": SETOUTS, "Progs": [{"Setup": p.setup, "Procs": p.procs, "All": p.all} for p in progs]}
    ops = {"log": 0, "query": 0}
    for race, ms in ((False, millis), (True, race_millis)):
        binary = build(ck, "main", race=race)

        def one(i):
            return run_harness(binary, "concloop", dict(base, Runs=[i + 1] * reps, Millis=ms // reps, Seed=ck.rng.getrandbits(40)), timeout=180, cwd=ck.tmp,
                               env={"GORACE": "halt_on_error=0 exitcode=0"} if race else None)
        seen = set()
        for i, run in enumerate(parallel(one, range(len(progs)), 2)):
            if race and "DATA RACE" in run.err and race_report(run.err):
                ck.violation("data race: " + race_report(run.err)[:2500], {"race": race_report(run.err)})
            where = "while these are repeated: %s" % json.dumps(describe(progs[i]))
            if run.crashed:
                ck.violation("the process died %s: %s" % (where, run.err[:1500]), {"program": progs[i].procs})
                continue
            r = result(run)
            if "Stuck" in r:
                ck.violation("calls that do not return %s: %s" % (where, r["Stuck"][:3000]), {"program": progs[i].procs})
            for b in (r["Bad"] or [])[:2]:
                ck.violation("%s %s" % (b, where), {"program": progs[i].procs})
            for s, n in sorted(r["Counts"].items()):
                _, p, j, d = json.loads(s)
                o = progs[i].procs[p - 1][j - 1]
                ops[o["op"]] = ops.get(o["op"], 0) + n
                seen.add(s)
                if (p, j, d) not in allowed[i]:
                    ck.violation("goroutine %d: %s %s %s gave [%s] (%d times), the specification allows %s, %s" % (
                        p, o["op"], "".join(o["name"]), o["arg"], d, n, sorted(a[2] for a in allowed[i] if a[:2] == (p, j)), where), {"program": progs[i].procs})
        ck.log("%s%s: %d of %d results seen in %s" % (name, " with the race detector" if race else "", len(seen), sum(len(a) for a in allowed), ops))
    ck.add("traces_validated_against_impl", 2 * reps * len(progs))
    ck.cov.setdefault("programs", {})[name] = {"programs": len(progs), "results_of_the_model": sum(len(a) for a in allowed), "operations": ops}


# ------------------------------------------------------------------------------------------------ programs

ENDLESS = [Prog(["t/a.b"], [M("t/a.b", 6), M("t/a", 5), Q("t/a")], [C(2), C(4)]),
           Prog(["t/a.b"], [M("t/a.b", 6), M("t", 6), Q("t/a.b")], [C(3), C(2)]),
           Prog(["t/a"], [M("t/a", 6)], [M("t", 4), Q("t/a")], [C(6), C(4)]),
           Prog(["t/a.b"], [M("t/a.b")], [O("t/a.b", 2), O("t", 3), O("t/a.b", 1), O("t", 4)]),
           Prog(["t/a.b"], [M("t/a.b", 5), Q("t/a.b")], [L("t/a.b", 0), L("t/a", 8), L("t/a.b", 2), L("t/a", 4)]),
           Prog(["t/a.b"], [M("t/a.b")], [O("t", 3), M("t"), O("t", 5), M("t/a.b")], [L("t/a.b", 7), L("t/a.b", 8)]),
           Prog(["t/a.b"], [M("t/a.b", 6), M("t/a", 6)], [C(5), C(2)], [L("t/a", 6), L("t/a", 7)]),
           Prog(["t"], [M("t", 7), M("t", 7)], [O("t", 2), O("t", 4)], [C(3), C(6)])]


CHANGE = [Prog(["t/a.b"], [M("t/a.b"), M("t/a.b")], [O("t/a.b", 2), O("t", 3)]),
          Prog(["t/a.b"], [M("t/a.b", 6), M("t/a", 6)], [C(2), C(3)]),
          Prog(["t/a.b"], [M("t/a", 5), Q("t/a"), M("t/a", 5)], [O("t/a", 4), L("t/a", 4), O("t/a", 5)]),
          Prog(["t/a.b"], [M("t/a")], [A(1, 0), O("t/a", 2), O("t/a", 1), O("t", 5)], [M("t/a")]),
          Prog(["t"], [O("t", 4), M("t"), M("t")], [O("t", 3), M("t")], [O("t", 2)]),
          Prog(["t"], [O("t", 4), M("t"), Q("t")], [A(1, 1), O("t", 3), O("t", 2), M("t", 5)]),
          Prog(["t/a.b"], [M("t/a.b", 6), Q("t/a.b")], [L("t/a.b", 0), L("t/a", 8), L("t/a", 2)]),
          Prog(["t/a.b"], [C(4), M("t/a")], [M("t")], [C(2)]),
          Prog(["t/a"], [C(4), M("t/a"), M("t/a")], [A(1, 1), O("t/a", 3), O("t/a", 5), M("t/a")]),
          Prog(["t", "t/a"], [C(5), M("t")], [C(6), M("t/a")]),
          Prog(["t/a"], [C(2), A(2, 1), M("t/a"), M("t")], [C(3), A(1, 1), M("t/a"), M("t")]),
          Prog(["t/a"], [O("t/a", 2), A(2, 1), M("t/a")], [O("t", 5), A(1, 1), M("t/a"), M("t")])]
OBTAIN = [Prog([], [G("t/a.b"), M("t/a.b")], [G("t"), M("t")], [G("t/a"), M("t/a")]),
          Prog([], [G("t/a.b"), Q("t/a.b")], [G("t/a.b"), M("t/a.b")], [G("t/a.b"), M("t/a.b")]),
          Prog([], [G("t/a.b"), M("t/a.b")], [C(3)]),
          Prog([], [G("t/a"), M("t/a")], [C(2), G("t/a.b"), M("t/a.b")]),
          Prog(["t"], [G("t/a"), G("t/x"), M("t/x")], [G("t/x/y"), M("t/x/y")], [C(4)]),
          Prog([], [G("t/x/y"), O("t/x/y", 2), M("t/x/y")], [G("t/x"), L("t/x", 3), M("t/x", 4)], [G("t/x/y"), Q("t/x/y")])]
CONFIGURE = [Prog(["t/a.b"], [C(2)], [C(3)]), Prog(["t/a.b"], [C(4)], [C(3)]), Prog(["t/a.b"], [C(2)], [C(3)], [C(4)]),
             Prog(["t/a"], [C(5)], [C(2)], [G("t/a.b")]), Prog(["t/a.b"], [C(2), C(3)], [C(4), C(6)]),
             Prog(["t/a.b"], [C(3), Q("t"), Q("t/a")], [C(2), Q("t/a"), Q("t")]), Prog(["t"], [C(6), G("t/a"), M("t/a")], [C(3), G("t/a.b"), M("t/a.b")])]
SHARE = [Prog([], [G("t"), M("t")], [G("t/a"), M("t/a")], [C(3)]), Prog([], [R("t/a")], [G("t/a")], [C(2), R("t")]),
         Prog(["t/a.b"], [C(2), R("t/a")], [C(3), R("t/a.b")], [R("t")]), Prog([], [C(2), G("t/a")], [C(3), G("t/a.b")]),
         Prog([], [C(4), G("t")], [C(2), G("t/a")], [R("t")])]


def random_programs(rng, n, kinds, procs=(2, 3), ops=(1, 3)):
    ps = []
    while len(ps) < n:
        k = rng.randint(*procs)
        setup = rng.choice([["t/a.b"], ["t/a"], ["t"], []])
        have0 = {p for s in setup for p in ("t", "t/a", "t/a.b") if s.startswith(p)}
        qs = []
        for _ in range(k):
            have, q = set(have0), []
            for _ in range(rng.randint(*ops)):
                o = rng.choice(kinds)
                if o == "get":
                    nm = rng.choice(["t", "t/a", "t/a.b", "t/x"])
                    q.append(G(nm))
                    have |= {p for p in ("t", "t/a", "t/a.b", "t/x") if nm == p or nm.startswith(p + "/") or nm.startswith(p + ".")}
                elif o == "config":
                    q.append(C(rng.randint(2, len(CONFIGS))))
                elif o == "resolve":
                    q.append(R(rng.choice(NAMES)))
                elif have:
                    nm = rng.choice(sorted(have))
                    if o == "log":
                        q.append(M(nm, rng.choice([4, 5, 6, 7])))
                    elif o == "level":
                        q.append(L(nm, rng.choice([0, 2, 5, 8])))
                    elif o == "outs":
                        q.append(O(nm, rng.randint(1, len(SETOUTS))))
                    else:
                        q.append(Q(nm))
            if q:
                qs.append(q)
        total = sum(len(q) for q in qs)
        if len(qs) < 2 or sum(o["op"] == "config" for q in qs for o in q) > (2 if total < 5 else 1) or total > 6:
            continue
        ps.append(Prog(setup, *qs))
    return ps


def c23(ck):
    t = ck.thorough
    ps = CHANGE + random_programs(ck.rng, 80 if t else 12, ["log", "log", "outs", "level", "config", "query"])
    check_programs(ck, ps, 3000 if t else 400, 600 if t else 60)
    check_endless(ck, ENDLESS, 10000 if t else 1200, 6000 if t else 600)


def c03(ck):
    t = ck.thorough
    ps = OBTAIN + random_programs(ck.rng, 60 if t else 6, ["get", "get", "log", "config", "outs"])
    check_programs(ck, ps, 2000 if t else 250, 400 if t else 40)


def c04(ck):
    t = ck.thorough
    ps = CONFIGURE + random_programs(ck.rng, 60 if t else 5, ["config", "config", "get", "query", "log"])
    check_programs(ck, ps, 2000 if t else 250, 400 if t else 40)


def c21(ck):
    t = ck.thorough
    ps = SHARE + random_programs(ck.rng, 60 if t else 5, ["config", "resolve", "get", "resolve"])
    check_programs(ck, ps, 2000 if t else 250, 400 if t else 40)
