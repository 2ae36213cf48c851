"""The worlds in which the Rolling specification is explored and replayed."""
from rolling import RWorld, check_rworld
from rollfault import check_faults
from core import *


def F(name, *body, t="file", mode=0o644):
    return {"name": name, "body": list(body), "t": t, "mode": mode}


# files that are not backups of app.log, whatever the naming mode
LOOKALIKE = ["app.log.", "app.log.1x", "app.log.x1", "app.log.1.bak", "xapp.log.1", "app.log2.1", "app.log1", "app.log.1.2", "app.log.1~", ".app.log",
             "app.log.gz", "app_log.1", "appXlog.7", "1app.log", "1.app.log.bak", "x.app.log", "1x.app.log", "other.txt", "app.log.0x1", "app.log. 1", "1_0.app.log", "app.log.1_0",
             "app.log.+2", "app.log.-3", "+2.app.log", "-3.app.log", "app.log.2.0", "app.log.1e1", "app.log.١"]
DIRS = ["app.log.500", "700.app.log", "sub", "app.log.d"]


def model_only(ck, name, kind, archive, ops, fails, crashes, env=("restart",), rolls=1, init=(), initlens=(), lens=(3, 5)):
    """Exhaustive check of the design with failures at any operation and deaths between any two; nothing is replayed."""
    w = RWorld(name, kind=kind, archive=archive, rolls=rolls, ops=ops, env=env, fails=fails, crashes=crashes, init=init, initlens=dict(initlens),
               lens=lens if kind == "size" else (1,))
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + "".join("INVARIANT %s\n" % i for i in w.INV) + "".join("PROPERTY %s\n" % p for p in w.PROP)
    r = run_tlc(ck, "MC_" + name, "Rolling", w.consts, cfg=cfg, workers=CORES, timeout=800)
    ck.log("model %s: %d states with up to %d failures and %d deaths" % (name, r.distinct, fails, crashes))
    ck.cov.setdefault("models", {})[name] = {"states": r.distinct, "failures": fails, "deaths": crashes}


def many(ck, worlds, modes=False, limit=None):
    parallel(lambda w: check_rworld(ck, w, modes, limit), worlds, 4)


NAMES = ["app.log", "a", "x.1", "log.2006-01-02", "[x]*?.log", "a b.log", "日志.log", ".hidden", "app.log.1", "%d%s", "UPPER.Log", "a..b"]


def c13(ck):
    t = ck.thorough
    ws = [RWorld("all", limit=5, rolls=20, lens=(0, 2, 5, 7), ops=7 if t else 5),
          RWorld("two", limit=5, rolls=2, lens=(1, 4, 6), ops=8 if t else 6, mode="prefix"),
          RWorld("kept", limit=5, rolls=20, lens=(1, 4), ops=6 if t else 5, initlens={901: 5, 902: 3, 903: 6, 904: 1},
                 init=[F("app.log", 901), F("app.log.9", 902), F("app.log.10", 903), F("app.log.002", 904)]),
          RWorld("full", limit=5, rolls=2, lens=(1, 4), ops=6 if t else 5, initlens={901: 3, 902: 8, 903: 6, 904: 1}, mode="prefix",
                 init=[F("app.log", 901, 902), F("8.app.log", 903), F("10.app.log", 904)]),
          RWorld("under", limit=5, rolls=1, lens=(1, 4), ops=5, initlens={901: 4}, init=[F("app.log", 901)]),
          RWorld("empty", limit=5, rolls=1, lens=(1, 5), ops=5, initlens={901: 4}, init=[F("app.log"), F("app.log.1"), F("app.log.3", 901)]),
          RWorld("one", limit=1, rolls=3, lens=(1, 3), ops=7 if t else 6),
          RWorld("gz", limit=4, rolls=1, lens=(1, 3, 4), ops=5, archive="gzip"),
          RWorld("kib", limit=1024, rolls=2, lens=(1, 1023, 1024), ops=6 if t else 5, opts={"size": "1K"}),
          RWorld("default", limit=10 << 20, rolls=5, lens=(5 << 20, (5 << 20) - 1), ops=4, opts={"size": "", "backups": ""}, env=()),
          RWorld("cwd", limit=5, rolls=2, lens=(2, 5), ops=4, cwd=True),
          RWorld("deep", limit=5, rolls=2, lens=(2, 5), ops=4, top="none", where="a/b/c d"),
          RWorld("long", limit=10, rolls=20, lens=range(1, 9), ops=60, sim=400 if t else 40, env=("restart",)),
          RWorld("longer", limit=10, rolls=3, lens=(1, 3, 10, 17), ops=60, sim=400 if t else 40, archive="zip", mode="prefix")]
    for i, n in enumerate(NAMES):
        ws.append(RWorld("n%d" % i, base=n, limit=3, rolls=1 + i % 2, lens=(2, 4), ops=4, mode=("postfix", "prefix")[i % 2] if not t else "postfix"))
        if t:
            ws.append(RWorld("p%d" % i, base=n, limit=3, rolls=1, lens=(2, 4), ops=4, mode="prefix"))
    many(ck, ws, limit=None if t else 3000)


PATTERNS = [  # pattern, seconds per instant, start
    ("2006-01-02", 43200, 0), ("2006-01-02-15", 1800, 3600 * 22), ("02.01.2006", 86400, 86400 * 29), ("20060102150405", 1, 86399 - 2),
    ("2006-01", 86400 * 16, 86400 * 300), ("01-02-2006 15:04", 30, 86400 * 366 - 90), ("Jan 02 2006", 86400, 86400 * 28), ("2006", 86400 * 200, 0),
    ("06_01_02", 3600 * 18, 86400 * 58)]


def c14(ck):
    t = ck.thorough
    ws = [RWorld("day", kind="time", rolls=20, lens=(1, 2), ops=6 if t else 5, env=("restart", "tick")),
          RWorld("half", kind="time", rolls=20, lens=(1,), ops=7 if t else 6, env=("restart", "tick"), pattern="2006-01-02-15", step=1800, start=900, periods=9),
          RWorld("pre", kind="time", rolls=20, lens=(1,), ops=5, env=("restart", "tick"), mode="prefix", initlens={901: 3, 902: 2, 903: 1},
                 init=[F("app.log", 901), F("1999-12-31.app.log", 902), F("1999-02-01.app.log", 903)],
                 past=[["1999-12-31", 500], ["1999-02-01", 300]]),
          RWorld("two", kind="time", rolls=2, lens=(1,), ops=6, env=("restart", "tick"), pattern="02.01.2006", start=86400 * 29, periods=7),
          RWorld("zip", kind="time", rolls=1, lens=(1, 3), ops=5, env=("tick",), archive="zip"),
          RWorld("bogota", kind="time", rolls=9, lens=(1,), ops=6, env=("tick", "restart"), tz="America/Bogota", step=3600 * 7, periods=9),
          RWorld("shanghai", kind="time", rolls=9, lens=(1,), ops=6, env=("tick", "restart"), tz="Asia/Shanghai", step=3600 * 7, periods=9),
          RWorld("dst", kind="time", rolls=9, lens=(1,), ops=6, env=("tick", "restart"), tz="America/New_York", pattern="2006-01-02-15",
                 start=86400 * 302 + 3600 * 4, step=3600, periods=6),
          RWorld("spring", kind="time", rolls=9, lens=(1,), ops=6, env=("tick", "restart"), tz="America/New_York", pattern="2006-01-02-15",
                 start=86400 * 92 + 3600 * 5, step=3600, periods=6),
          RWorld("long", kind="time", rolls=20, lens=(1, 4), ops=60, sim=400 if t else 40, env=("restart", "tick"), pattern="2006-01-02 15", step=1800, periods=60),
          # boundaries within a second of one another, and of the writes around them
          RWorld("brief", kind="time", rolls=20, lens=(1,), ops=7 if t else 6, env=("restart", "tick"), pattern="20060102150405", step=0.4, start=58.5, periods=7),
          RWorld("midnight", kind="time", rolls=20, lens=(1,), ops=6, env=("restart", "tick"), start=86399.55, step=0.3, periods=5),
          RWorld("newyear", kind="time", rolls=2, lens=(1,), ops=6, env=("tick",), start=86400 * 366 - 0.02, step=0.015, periods=4, mode="prefix", tz="UTC"),
          # an asynchronous output that has nothing to write for many flushes
          RWorld("quiet", kind="time", rolls=2, lens=(1, 2), ops=6 if t else 5, env=("tick",), pattern="2006-01-02T15.04", step=60, periods=8, opts={"async": "true", "batch_num": "1"}),
          RWorld("quietzip", kind="time", rolls=1, lens=(1,), ops=5, env=("tick",), pattern="15.04 2006-01-02", step=60, start=50, periods=8, archive="gzip", mode="prefix",
                 opts={"async": "true", "batch_num": "1", "queue_size": "1"}),
          RWorld("longer", kind="time", rolls=3, lens=(1, 4), ops=40, sim=200 if t else 20, env=("tick",), step=86400, periods=60, archive="gzip")]
    for i, (p, step, start) in enumerate(PATTERNS):
        ws.append(RWorld("p%d" % i, kind="time", pattern=p, step=step, start=start, rolls=20, lens=(1,), ops=6 if t else 5, env=("tick", "restart"),
                         periods=6, mode=("postfix", "prefix")[i % 2]))
    many(ck, ws, limit=None if t else 2500)


def foreign(n0):
    return [F(n, n0 + i) for i, n in enumerate(LOOKALIKE)] + [F(n, t="dir") for n in DIRS]


def c15(ck):
    t = ck.thorough
    k = len(LOOKALIKE)
    fl = {910 + i: 1 + i % 3 for i in range(k)}
    many_backups = [F("app.log.%d" % n, 950 + i) for i, n in enumerate((3, 20, 100, 1000, 5, 9, 10))]
    bl = {950 + i: 2 for i in range(7)}
    crowd = [F("x%03d.dat" % i) for i in range(70)]
    pre = [F("%d.app.log" % n, 950 + i) for i, n in enumerate((3, 20, 100, 1000, 5, 9, 10))]
    days = [["%s" % d, 100 + i] for i, d in enumerate(("01.02.1998", "28.02.1998", "15.03.1998", "02.01.1999", "31.12.1999"))]
    dfiles = [F("app.log." + d, 950 + i) for i, (d, _) in enumerate(days)]
    tlook = ["app.log.1.2.1999", "app.log.99.99.1999", "app.log.01.02.1999x", "app.log.30.02.1999", "app.log.01-02-1999", "01.02.1999.app.log", "app.log.12", "app.log.01.02.99", "app.log.xx.02.1999"]
    ws = [RWorld("foreign", limit=3, rolls=1, lens=(2, 3), ops=5, init=foreign(910), initlens=fl),
          RWorld("foreignp", limit=3, rolls=1, lens=(2, 3), ops=5, init=foreign(910), initlens=fl, mode="prefix"),
          RWorld("left", limit=3, rolls=2, lens=(2, 3), ops=5, init=many_backups, initlens=bl),
          RWorld("left3", limit=3, rolls=3, lens=(3,), ops=6, init=pre, initlens=bl, mode="prefix"),
          RWorld("crowd", limit=3, rolls=2, lens=(3,), env=(), ops=6, init=crowd + many_backups + foreign(910), initlens={**bl, **fl}),
          RWorld("nine", limit=3, rolls=3, lens=(3,), ops=6, init=[F("app.log.8", 950)], initlens=bl),
          RWorld("much", limit=1, rolls=9, lens=(1,), ops=24, env=()),
          RWorld("much99", limit=1, rolls=2, lens=(1,), ops=8, env=(), init=[F("app.log.98", 950), F("app.log.97", 951)], initlens=bl),
          RWorld("ten", limit=1, rolls=1, lens=(1,), ops=14, env=()),
          RWorld("gz", limit=3, rolls=1, lens=(3,), ops=5, init=many_backups + foreign(910), initlens={**bl, **fl}, archive="gzip"),
          RWorld("zip", limit=3, rolls=2, lens=(3,), ops=5, init=pre + foreign(910), initlens={**bl, **fl}, archive="zip", mode="prefix"),
          RWorld("day", kind="time", rolls=2, lens=(1,), ops=5, env=("tick", "restart"), pattern="02.01.2006", start=86400 * 29, periods=8, past=days, init=dfiles,
                 initlens=bl),
          RWorld("dayf", kind="time", rolls=1, lens=(1,), ops=5, env=("tick",), pattern="02.01.2006", start=86400 * 29, periods=8, past=days,
                 init=dfiles + [F(n, 910 + i) for i, n in enumerate(tlook)] + [F("app.log.05.05.1999", t="dir")], initlens={**bl, **fl}),
          RWorld("keep1", kind="time", rolls=1, lens=(1,), ops=7, env=("tick",), pattern="01-02-2006", start=86400 * 364, periods=8),
          RWorld("dst", kind="time", rolls=2, lens=(1,), ops=7, env=("tick",), tz="America/New_York", pattern="2006-01-02-15", start=86400 * 302 + 3600 * 4, step=3600, periods=6)]
    nums = [1 + 13 * i % 211 for i in range(58)]
    ll = {901 + i: 1 + i % 3 for i in range(58)}
    ws += [RWorld("lot", limit=3, rolls=2, lens=(3,), ops=4, init=[F("app.log.%d" % n, 901 + i) for i, n in enumerate(nums)], initlens=ll),
           RWorld("lotp", limit=3, rolls=20, opts={"backups": "40"}, lens=(3,), ops=4, init=[F("%d.app.log" % n, 901 + i) for i, n in enumerate(nums)], initlens=ll, mode="prefix")]
    if t:
        ws += [RWorld("sim%d" % i, limit=5, rolls=r, lens=(1, 3, 6), ops=80, sim=200, init=many_backups + foreign(910), initlens={**bl, **fl}, archive=a)
               for i, (r, a) in enumerate([(1, "none"), (2, "zip"), (4, "gzip"), (7, "none")])]
    many(ck, ws, limit=None if t else 2500)


def c16(ck):
    t = ck.thorough
    bl = {950 + i: 5 + i for i in range(7)}
    post = [F("app.log.%d" % n, 950 + i) for i, n in enumerate((3, 20, 100, 9))]
    pre = [F("%d.app.log" % n, 950 + i) for i, n in enumerate((3, 20, 100, 9))]
    days = [["1998-02-03", 100], ["1999-12-30", 101]]
    ll = {901 + i: 1 + i % 4 for i in range(58)}
    nums = [7 * i % 53 for i in range(1, 40)]
    lot = [[F("%d.app.log" % n, 901 + i) for i, n in enumerate(nums)], [F("app.log.%d" % n, 901 + i) for i, n in enumerate(nums)]]
    ldays = [["19%02d-%02d-%02d" % (60 + i, 1 + i % 12, 1 + 5 * i % 28), 100 + i] for i in range(20)]
    ws = []
    for a in ("zip", "gzip"):
        ws += [RWorld(a + "1", archive=a, limit=4, rolls=1, lens=(0, 2, 4), ops=6 if t else 5),
               RWorld(a + "p", archive=a, limit=4, rolls=2, lens=(4, 7), ops=6, mode="prefix", init=pre, initlens=bl),
               RWorld(a + "m", archive=a, limit=4, rolls=1, lens=(3, 5), ops=5, init=post + foreign(910), initlens={**bl, **{910 + i: 1 for i in range(len(LOOKALIKE))}}),
               RWorld(a + "big", archive=a, limit=100000, rolls=1, lens=(99999, 100001, 250000), ops=4, env=()),
               RWorld(a + "t", kind="time", archive=a, rolls=1, lens=(1, 3), ops=5, env=("tick", "restart"), past=days,
                      init=[F("app.log." + d, 950 + i) for i, (d, _) in enumerate(days)], initlens=bl),
               RWorld(a + "tp", kind="time", archive=a, rolls=2, lens=(2,), ops=6, env=("tick",), mode="prefix", pattern="2006-01-02 15", step=1800, periods=9),
               RWorld(a + "cwd", archive=a, limit=3, rolls=1, lens=(3,), ops=5, cwd=True),
               RWorld(a + "deep", archive=a, limit=3, rolls=1, lens=(3,), ops=5, where="x/y", top="none", env=()),
               RWorld(a + "long", archive=a, limit=10, rolls=2, lens=(1, 4, 12), ops=60, sim=300 if t else 30),
               RWorld(a + "lot", archive=a, limit=3, rolls=1, lens=(3,), ops=4, mode=("prefix", "postfix")[a == "zip"], init=lot[a == "zip"], initlens=dict(ll)),
               RWorld(a + "lott", kind="time", archive=a, rolls=2, lens=(1,), ops=3, env=("tick",), periods=3, past=ldays,
                      init=[F("app.log." + d, 901 + i) for i, (d, _) in enumerate(ldays)], initlens=dict(ll)),
               RWorld(a + "blk", archive=a, limit=3, rolls=1, lens=(3,), ops=7 if t else 6, env=("blockarch", "unblockarch"), init=post, initlens=bl)]
    for i, n in enumerate(NAMES):
        ws.append(RWorld("n%d" % i, base=n, limit=3, rolls=1, lens=(4,), ops=4, archive=("zip", "gzip")[i % 2], env=()))
    many(ck, ws, limit=None if t else 1500)
    for a in ("zip", "gzip"):
        model_only(ck, "fail" + a, "size", a, 6 if t else 5, 2 if t else 1, 0, init=post[:2], initlens=bl)
    ops = [("write", n) for n in (4, 4, 2, 3, 5)]
    for a in ("zip", "gzip"):
        w = RWorld("e" + a, archive=a, limit=4, rolls=1, init=post[:2], initlens=bl)
        check_faults(ck, w, ops, ops, kills=t, errors=("EIO", "EACCES") if t else ("EIO",), limit=None if t else 150)


def c17(ck):
    t = ck.thorough
    bl = {950 + i: 5 + i for i in range(7)}
    post = [F("app.log.%d" % n, 950 + i) for i, n in enumerate((3, 20, 9))]
    ws = [RWorld("block", limit=3, rolls=1, lens=(2, 3), ops=7 if t else 6, env=("block", "unblock")),
          RWorld("blockp", limit=3, rolls=2, lens=(3,), ops=8 if t else 7, env=("block", "unblock", "restart"), mode="prefix"),
          RWorld("cur", limit=3, rolls=1, lens=(3,), ops=7 if t else 6, env=("restart", "blockcur", "unblockcur", "rmcur")),
          RWorld("topx", limit=3, rolls=1, lens=(3,), ops=7 if t else 6, env=("restart", "filedir", "unfiledir", "rmdir"), top="none"),
          RWorld("topa", limit=3, rolls=1, lens=(3,), ops=6, env=("restart", "filedir", "unfiledir", "rmdir"), archive="zip"),
          RWorld("arch", limit=3, rolls=1, lens=(2, 3), ops=6, env=("blockarch", "unblockarch"), archive="gzip", init=post, initlens=bl),
          RWorld("all", limit=3, rolls=1, lens=(3,), ops=7 if t else 6, env=("block", "unblock", "blockarch", "unblockarch", "restart"), archive="zip"),
          RWorld("tblock", kind="time", rolls=1, lens=(1,), ops=7, env=("tick", "block", "unblock"), periods=6),
          RWorld("tblockr", kind="time", rolls=2, lens=(1,), ops=6, env=("tick", "block", "unblock", "restart"), periods=6, step=43200, mode="prefix"),
          RWorld("tcur", kind="time", rolls=1, lens=(1,), ops=6, env=("tick", "restart", "blockcur", "unblockcur"), periods=6),
          RWorld("tarch", kind="time", rolls=1, lens=(1,), ops=7, env=("tick", "blockarch", "unblockarch"), periods=6, archive="zip"),
          RWorld("ttop", kind="time", rolls=1, lens=(1,), ops=6, env=("tick", "restart", "filedir", "unfiledir"), periods=6, top="none"),
          RWorld("sim", limit=5, rolls=2, lens=(1, 3, 6), ops=60, sim=400 if t else 40, archive="gzip", init=post, initlens=bl,
                 env=("restart", "block", "unblock", "blockarch", "unblockarch", "blockcur", "unblockcur")),
          RWorld("tsim", kind="time", rolls=2, lens=(1, 3), ops=60, sim=400 if t else 40, archive="zip", periods=60, step=43200,
                 env=("restart", "tick", "block", "unblock", "blockarch", "unblockarch", "blockcur", "unblockcur"))]
    many(ck, ws, limit=None if t else 2000)
    for k, a in (("size", "none"), ("size", "zip"), ("time", "none"), ("time", "gzip")):
        model_only(ck, "f" + k + a, k, a, 6 if t else 5, 2, 0, env=("restart",) if k == "size" else ("tick",))
    fault_worlds(ck, kills=False, errors=("EIO", "EACCES", "ENOSPC", "EMFILE") if t else ("EIO",), limit=None if t else 170)


def fault_worlds(ck, kills, errors, limit):
    il = {901: 6, 902: 5, 903: 7, 904: 2}
    il2 = {901: 6, 902: 5, 903: 7, 904: 9}
    init = [F("app.log.3", 901), F("app.log.4", 902), F("app.log.12", 903), F("app.log", 904)]
    pinit = [F("3.app.log", 901), F("4.app.log", 902), F("12.app.log", 903), F("app.log", 904)]
    ops = [("write", n) for n in (3, 4, 6, 1, 5, 5, 2, 4, 3)]
    more = [("write", n) for n in (3, 4, 5, 6, 2)]
    tops = [("write", 2), ("write", 3), ("tick", 1), ("write", 4), ("tick", 2), ("write", 2), ("tick", 1), ("write", 1), ("write", 1), ("tick", 1), ("write", 3)]
    tmore = [("write", 4), ("tick", 1), ("write", 2), ("tick", 1), ("write", 3)]
    T = dict(kind="time", periods=20)
    ws = [(RWorld("plain", limit=5, rolls=2, init=init, initlens=il), ops, more),
          (RWorld("fresh", limit=5, rolls=1, top="none", where="p/q"), ops, more),
          (RWorld("zip", limit=5, rolls=1, archive="zip", init=pinit, initlens=il2, mode="prefix"), ops, more),
          (RWorld("gzip", limit=5, rolls=2, archive="gzip", init=init, initlens=il), ops, more),
          (RWorld("large", limit=100000, rolls=1, archive="gzip", init=[F("app.log", 901)], initlens={901: 3000}), [("write", n) for n in (5000, 70000, 140000, 9000, 40000, 100001)],
           [("write", n) for n in (8193, 300000, 4097)]),
          (RWorld("time", rolls=2, **T), tops, tmore),
          (RWorld("timezip", rolls=1, archive="zip", mode="prefix", **T), tops, tmore),
          (RWorld("timegz", rolls=1, archive="gzip", pattern="02.01.2006 15", step=3600, **T), tops, tmore)]
    for w, o, m in ws:
        check_faults(ck, w, o, m, kills, errors, limit)


def c24(ck):
    t = ck.thorough
    for k, a in (("size", "none"), ("size", "gzip"), ("time", "none"), ("time", "zip")):
        model_only(ck, "k" + k + a, k, a, 6 if t else 5, 0, 2, env=() if k == "size" else ("tick",))
    model_only(ck, "both", "size", "zip", 5, 1, 1, env=())
    fault_worlds(ck, kills=True, errors=(), limit=None if t else 240)


def c20(ck):
    t = ck.thorough
    bl = {950 + i: 5 + i for i in range(7)}
    ws = []
    for i, (f, b, d, m) in enumerate([(0o600, 0o500, 0o760, 0o22), (0o644, 0o400, 0o755, 0), (0o666, 0o777, 0o777, 0o27), (0o640, 0o440, 0o700, 0o77),
                                      (0o660, 0o666, 0o770, 0o22), (0o604, 0o604, 0o711, 0), (0o600, 0o500, 0o760, 0), (0o777, 0o600, 0o750, 0o2)]):
        kind = ("size", "time")[i % 2]
        a = dict(kind=kind, fperm=f, bperm=b, dperm=d, mask=m, rolls=2, ops=5, where="n/m/log", top="none", archive=("none", "none", "gzip", "zip")[i % 4],
                 mode=("postfix", "prefix")[i // 2 % 2])
        if kind == "size":
            ws.append(RWorld("m%d" % i, limit=3, lens=(2, 3), **a))
            ws.append(RWorld("x%d" % i, limit=3, lens=(3,), initlens=bl, init=[F("app.log", 950, mode=0o606), F("app.log.1", 951, mode=0o611), F("app.log.txt", 952, mode=0o622)],
                             **dict(a, top="dir", where="log", mode="postfix")))
        else:
            ws.append(RWorld("m%d" % i, lens=(1,), env=("tick", "restart"), **a))
            ws.append(RWorld("x%d" % i, lens=(1,), env=("tick",), initlens=bl, init=[F("app.log", 950, mode=0o606), F("app.log.txt", 952, mode=0o622)],
                             **dict(a, top="dir", where="log")))
    # values that are not permissions mean the defaults
    for i, bad in enumerate(["0", "", "rw", "9999", "-1", "01000", "888", "1777", " 0644", "0644 ", "0644x"]):
        ws.append(RWorld("bad%d" % i, limit=3, rolls=1, lens=(3,), ops=4, where="n/log", top="none", env=(), mask=0,
                         opts={"file_perm": bad, "back_perm": bad, "dir_perm": bad}))
    many(ck, ws, modes=True, limit=None if t else 800)
