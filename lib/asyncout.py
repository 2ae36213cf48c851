"""C09-C11: the Async specification against the real asynchronous output."""
from core import *


def gokey(o):
    l = lambda s: "[" + " ".join(str(x) for x in sorted(s)) + "]"
    return "%s %s [%s]" % (l(o["ret"]), l(o["cret"]), " ".join("[" + " ".join(map(str, b)) + "]" for b in o["out"]))


def consts(m, q, b, c, maxops=0, ops=(), period=5, passes=None, threads=None, blocked=99, loose=False, low=("queued", "ignored")):
    return {"M": m, "Q": q, "B": b, "C": c, "MaxOps": maxops, "Ops": Raw(tla(set(ops)) if ops else "{}"), "Period": period,
            "MaxBlocked": blocked, "Loose": loose, "LowWays": Raw(tla(set(low))), "Pass": passes or [True] * m, "Thread": threads or list(range(1, m + 1))}


INV = ["Exact", "Bounded", "Flushed", "Batches", "Pending"]


def histories(ck, name, m, q, b, c, maxops, ops, clock, sim=None, low="ignored", void=()):
    """All sequences of operations with the set of observations the specification allows for them."""
    d = {}

    def got(s):
        h = json.loads(s[1:])
        k = tuple((o["op"], o["arg"]) for o in h["ops"])
        for o in h["obs"] if void else ():      # records that are empty cannot be seen
            o["out"] = [b for b in ([m for m in b if m not in void] for b in o["out"]) if b]
        d.setdefault(k, set()).add(tuple(gokey(o) for o in h["obs"]))
    cfg = "INIT Init\nNEXT HistNext\nCHECK_DEADLOCK FALSE\nINVARIANT PrintHistory\nINVARIANT FlushDue\nPROPERTY NothingAfter\n" + "".join("INVARIANT %s\n" % i for i in INV)
    args = ("-simulate", "num=%d" % sim, "-depth", "1000", "-seed", str(ck.seed * 31 + 5)) if sim else ()
    run_tlc(ck, "MC_" + name + low, "Async", consts(m, q, b, c, maxops, ops, blocked=1 if sim else 99, loose=not clock, low=(low,)), cfg=cfg, args=args, on_print=got, timeout=800)
    return d


def blocked(seq, k):
    """Messages sent and not returned after operation k, in the sequence of observations."""
    ret = seq[k].split("]")[0].strip("[").split()
    return ret


def replay(ck, name, d, q, b, clock, limit=None, void=()):
    """The differences between what the output does and what the specification has."""
    keys = sorted(d)
    if clock:
        # not where goroutines could wait for a mutex, which the virtual clock cannot see
        def fine(k):
            for seq in d[k]:
                sends, closes = 0, 0
                for i, (op, arg) in enumerate(k):
                    nret = len(blocked(seq, i - 1)) if i else 0
                    if op in ("close", "send", "low") and sends - nret > 0:
                        return False
                    sends += op in ("send", "low")
            return True
        keys = [k for k in keys if fine(k)]
    rng = random.Random("%d %s" % (ck.seed, name))
    if limit and len(keys) > limit:
        keys = rng.sample(keys, limit)
    binary = build(ck, "clock" if clock else "main")

    def script(k):
        return {"Q": q, "B": b, "Low": sum(len(o) for o, _ in k) % 2 == 1, "Ops": [{"Op": o, "Arg": a} for o, a in k],
                "Want": sorted(d[k]), "Void": sorted(void)}

    def one(ks):
        run = run_harness(binary, "async", [script(k) for k in ks], timeout=240)
        if run.crashed:
            return [(ks[0], "the process died: " + run.err[:1500], None)]
        out = []
        for k, obs in zip(ks, result(run, "async harness")):
            if obs is None:
                continue
            got = tuple(gokey({"ret": o["Ret"], "cret": o["Cret"], "out": o["Out"]}) + o["Bad"] for o in obs)
            if got not in d[k]:
                best = max(d[k], key=lambda s: sum(1 for i in range(len(s)) if s[:i + 1] == got[:i + 1]))
                n = next(i for i in range(len(got)) if best[:i + 1] != got[:i + 1])
                out.append((k, "after %s: returned sends, returned closes, batches are %s; the specification allows %s" % (
                    ", ".join("%s %s" % x for x in k[:n + 1]), got[n], sorted({s[n] for s in d[k] if s[:n] == got[:n]})), got))
        return out
    shards = [keys[i:i + 250] for i in range(0, len(keys), 250)]
    bads = [x for l in parallel(one, shards, CORES if clock else 4) for x in l]
    confirmed = []
    for k, text, got in bads[:6]:
        if clock or one([k] * 15):
            confirmed.append((k, text))
    if bads and not confirmed:
        ck.log("%s: a difference did not repeat and is not reported: %s" % (name, bads[0][1]))
        ck.cov.setdefault("not_repeated", []).append(bads[0][1])
    complaints = [("%s (queue %d, batch %d): %s" % (name, q, b, text), {"world": name, "queue": q, "batch": b, "ops": k, "allowed": sorted(d[k])[:20]})
                  for k, text in confirmed[:3]]
    ck.add("traces_validated_against_impl", len(keys))
    nops = {}
    for k in keys:
        for o, _ in k:
            nops[o] = nops.get(o, 0) + 1
    ck.log("%s: %d operation sequences, %d behaviours, %d replayed: %s" % (name, len(d), sum(map(len, d.values())), len(keys), nops))
    ck.cov.setdefault("worlds", {})[name] = {"sequences": len(d), "replayed": len(keys), "queue": q, "batch": b, "operations": nops}
    if keys:
        ck.sample({"world": name, "ops": ["%s %s" % x for x in keys[len(keys) // 2]], "observed": sorted(d[keys[len(keys) // 2]])[0][-1]})
    return complaints


def check_histories(ck, name, m, q, b, c, maxops, ops, clock, limit=None, sim=None, void=()):
    """An output either drops messages below the threshold at once or lets them through the queue; one of the two must explain everything."""
    for low in ("ignored", "queued") if "low" in ops else ("ignored",):
        complaints = replay(ck, name, histories(ck, name, m, q, b, c, maxops, ops, clock, sim, low, void), q, b, clock, limit, void)
        if not complaints:
            ck.cov.setdefault("below_threshold", {})[name] = low
            return
        if low == "ignored":
            first = complaints
    for text, what in first:
        ck.violation(text, what)


def design(ck, name, m, q, b, c, ops, passes, threads, live=True):
    """Every interleaving of the design, with liveness under fairness."""
    cfg = "SPECIFICATION FreeSpec\nCHECK_DEADLOCK FALSE\n" + "".join("INVARIANT %s\n" % i for i in INV) + "PROPERTY NothingAfter\nPROPERTY CallOrder\n"
    if live:
        cfg += "PROPERTY SendReturns\nPROPERTY CloseReturns\n"
    r = run_tlc(ck, "MC_" + name, "Async", consts(m, q, b, c, 0, ops, passes=passes, threads=threads), cfg=cfg, workers=CORES, timeout=850)
    ck.log("design %s: %d states%s" % (name, r.distinct, ", liveness checked" if live else ""))
    ck.cov.setdefault("models", {})[name] = r.distinct


def traces(ck, name, cfgs, race=False, procs=None):
    """Recorded concurrent runs checked against the specification."""
    binary = build(ck, "main", race)
    cs = []
    for i, c in enumerate(cfgs):
        c = dict(c)
        c["Seed"] = ck.seed * 100003 + i
        cs.append(c)
    shards = [cs[i:i + 60] for i in range(0, len(cs), 60)]

    def go(sh):
        run = run_harness(binary, "asynctrace", sh, timeout=300, env={"GORACE": "halt_on_error=1 exitcode=66"})
        if run.crashed or "DATA RACE" in run.err:
            return [{"Bad": "the process died: " + run.err[:2500], "Events": []}] * len(sh)
        return result(run, "trace harness")
    res = [x for l in parallel(go, shards, 3) for x in l]
    items = list(zip(cs, res))
    for c, r in items:
        if r["Bad"]:
            ck.violation("%s: %s" % (name, r["Bad"][:1500]), {"run": c, "trace": r["Events"]})
            break
    items = [(c, r) for c, r in items if not r["Bad"]]
    groups = {}
    for c, r in items:
        groups.setdefault((c["Q"], c["B"], c["Threads"] * c["PerThread"], c["Closers"] + 1, bool(r.get("Slow"))), []).append((c, r))
    jobs = [(k, g[i:i + 40]) for k, g in groups.items() for i in range(0, len(g), 40)]

    def val(job):
        (q, b, m, cl, slow), g = job
        tr = [[{"e": e["e"], "n": e["n"], "p": e["p"], "b": e["b"] or []} for e in r["Events"]] for _, r in g]
        body = "Traces == " + tla(tr) + '''
VNext == Event(Traces) \\/ Silent(%s)
VInit == TInit(Traces) /\\ TLCSet(tr, 0)
VReached == Reached(Traces)
VPost == \\A t \\in 1..Len(Traces) : PrintT("@@R" \\o ToJson(<<t, TLCGet(t)>>))
''' % ("TRUE" if slow else "FALSE")
        got = {}
        r = run_tlc(ck, "MC_tr", "AsyncTrace", consts(m, q, b, cl), body=body,
                    cfg="INIT VInit\nNEXT VNext\nCHECK_DEADLOCK FALSE\nCONSTRAINT VReached\nINVARIANT Exact\nINVARIANT Flushed\nINVARIANT Batches\nPOSTCONDITION VPost\n",
                    on_print=lambda s: got.update([json.loads(s[1:])]), timeout=600)
        bad = []
        for n, (c, x) in enumerate(g):
            if got.get(n + 1) != len(x["Events"]):
                bad.append((c, x, got.get(n + 1, 0)))
        return bad
    bads = [x for l in parallel(val, jobs, CORES) for x in l]
    for c, x, n in bads[:3]:
        ev = x["Events"]
        ck.violation("%s: a recorded run is no behaviour of the specification from event %d on: %s | %s" % (
            name, n + 1, brief(ev[:n]), brief(ev[n:n + 3])), {"run": c, "trace": ev, "matched": n})
    ck.add("traces_validated_against_impl", len(items))
    ck.log("%s: %d recorded runs, %d events checked" % (name, len(items), sum(len(r["Events"]) for _, r in items)))
    ck.cov.setdefault("recorded", {})[name] = {"runs": len(items), "events": sum(len(r["Events"]) for _, r in items), "race_detector": race}


def brief(ev):
    return " ".join("%s%s" % (e["e"], e["b"] if e["e"] == "write" else e["n"]) for e in ev)


def trace_cfgs(n, closers=(0, 1, 2, 3), race=False):
    out = []
    shapes = [(1, 1, 3, 3), (2, 1, 3, 3), (1, 2, 3, 3), (2, 3, 2, 4), (3, 2, 4, 2), (4, 20, 3, 3), (1, 3, 2, 5), (1000, 2, 3, 3)]
    for i in range(n):
        q, b, t, p = shapes[i % len(shapes)]
        out.append({"Q": q, "B": b, "Threads": t, "PerThread": p, "Closers": closers[i // len(shapes) % len(closers)], "Spread": (0, 50, 300, 1000)[i // 3 % 4],
                    "Low": i % 5 == 0, "Procs": (0, 1, 2, 0)[i // 2 % 4]})
    return out


W = ("wait1", "wait4", "wait5", "wait13")


def together(*jobs):
    """Runs (function, arguments...) jobs four at a time."""
    parallel(lambda j: j[0](*j[1:]), jobs, 4)


def c09(ck):
    t = ck.thorough
    H, D = check_histories, design
    together(
        (D, ck, "d21", 4, 2, 1, 1, ("shut",), [True, True, False, True], [1, 1, 2, 2], t),
        (D, ck, "d12", 4, 1, 2, 1, ("shut", "wait5"), [True, True, False, True], [1, 2, 2, 1], False),
        (H, ck, "gate11", 6, 1, 1, 1, 8 if t else 6, ("send", "low", "shut", "open"), False, None if t else 1500),
        (H, ck, "gate22", 8, 2, 2, 1, 9 if t else 8, ("send", "shut", "open"), False, None if t else 1500),
        (H, ck, "gate31", 7, 3, 1, 1, 8 if t else 7, ("send", "shut", "open", "close"), False, None if t else 1000),
        (H, ck, "clock23", 6, 2, 3, 0, 7 if t else 6, ("send", "low", "shut", "open") + W[1:3], True, None if t else 3000),
        (H, ck, "hang11", 4, 1, 1, 0, 8 if t else 7, ("send", "shut", "open", "wait13", "wait61"), True, None if t else 2000),
        (H, ck, "hang21", 5, 2, 1, 0, 8, ("send", "shut", "open", "wait61"), True, None if t else 1500),
        (H, ck, "long", 40, 3, 4, 1, 50, ("send", "low", "shut", "open"), False, None, 300 if t else 40))
    traces(ck, "runs", trace_cfgs(3000 if t else 400, closers=(0, 0, 0, 1)))
    traces(ck, "race", trace_cfgs(600 if t else 80), race=True)


def c10(ck):
    t = ck.thorough
    H, D = check_histories, design
    ops = ("send", "low", "shut", "open", "close")
    together(
        (D, ck, "d11", 3, 1, 1, 3 if t else 2, ("shut",), [True, False, True], [1, 2, 3]),
        (D, ck, "d23", 4, 2, 3, 2, ("shut",), [True, True, False, True], [1, 2, 3, 3], t),
        (H, ck, "close11", 5, 1, 1, 3, 7 if t else 6, ops, False, None if t else 2500),
        (H, ck, "close12", 6, 1, 2, 2, 8 if t else 6, ("send", "shut", "open", "close"), False, None if t else 2500),
        (H, ck, "close23", 6, 2, 3, 2, 8 if t else 6, ("send", "shut", "open", "close"), False, None if t else 1500),
        (H, ck, "clock", 5, 2, 2, 2, 6, ("send", "low", "close", "shut", "open", "wait5"), True, None if t else 3000))
    traces(ck, "runs", trace_cfgs(4000 if t else 500, closers=(1, 2, 3)))
    # creation and immediate closing
    traces(ck, "atonce", [{"Q": 1 + i % 3, "B": 1 + i % 2, "Threads": 2, "PerThread": 1 + i % 3, "Closers": 1 + i % 3, "Spread": 0, "Low": False, "Procs": i % 3}
                          for i in range(1500 if t else 150)])
    traces(ck, "race", trace_cfgs(600 if t else 80, closers=(2, 3)), race=True)


def c11(ck):
    t = ck.thorough
    H = check_histories
    together(
        *[(H, ck, "clock%d%d" % (q, b), 7, q, b, 1, 6 if t else 5, ("send", "low", "close") + W, True, None if t else 3000)
          for q, b in ((3, 1), (3, 2), (4, 3)) + (((2, 5),) if t else ())],
        (H, ck, "batch2", 8, 3, 2, 0, 8 if t else 7, ("send", "wait4", "low"), True, None if t else 3000),
        (H, ck, "batch3", 8, 3, 3, 0, 8 if t else 7, ("send", "wait1", "wait4"), True, None if t else 3000),
        # some messages are rendered as nothing
        *[(H, ck, "empty%d" % i, 7, 3, 2 + i // 2, 1, 7 if t else 6, ("send", "low", "wait4") + (("close",) if t else ()), True, None if t else 2000, None, v)
          for i, v in enumerate(({2}, {1, 2, 5}, {3, 4}, {1, 2, 3}))],
        (H, ck, "slow", 6, 2, 2, 1, 7 if t else 6, ("send", "shut", "open") + W[1:3], True, None if t else 3000),
        (H, ck, "long", 60, 1000, 5, 1, 80, ("send", "low") + W, True, None, 300 if t else 50),
        (H, ck, "longer", 90, 100, 20, 1, 110, ("send", "low", "wait1"), True, None, 100 if t else 15),
        (design, ck, "d", 4, 2, 2, 1, ("wait5",), [True, True, False, True], [1, 1, 1, 1]))
