"""C18: the Options specification against what configured outputs do."""
from core import *
from rolling import RWorld, check_rworld


def meanings(ck, name, kind, alphabet="", maxlen=-1, texts=()):
    out = {}
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT InRange\nINVARIANT AsGiven\nINVARIANT PermRange\nINVARIANT LevelRange\nINVARIANT PrintMeaning\nPROPERTY Monotone\n"

    def feed(s):
        r = json.loads(s[1:])
        out["".join(r["t"])] = r["v"]
    consts = {"Kind": kind, "Alphabet": Raw(tla(set(alphabet)) if alphabet else "{}"), "MaxLen": maxlen, "Texts": [list(t) for t in texts] or Raw("<<>>")}
    run_tlc(ck, "MC_" + name, "Options", consts, cfg=cfg, timeout=800, heap="6g", on_print=feed)
    ck.log("%s: %d texts" % (name, len(out)))
    return out


UNIT = {"B": 1, "K": 1 << 10, "M": 1 << 20, "G": 1 << 30}
LV = "tdiwec"   # trace (2) .. critical (7)


def bytes_of(v):
    return int("".join(map(str, v["num"]))) * UNIT[v["unit"]]


class Gen:
    """Options that are not what a probe is about, with values whose meaning the specification gives."""

    def __init__(self, ck, sizes, counts, perms, levels):
        self.r = random.Random(ck.seed * 31 + 7)
        self.sizes = [t for t, v in sizes.items() if v["unit"] != "open" and bytes_of(v) > 4096]
        self.counts, self.levels = list(counts), [t for t, v in levels.items() if v["level"] <= 6]
        self.perms = [t for t, v in perms.items() if not v["open"]]

    def maybe(self, c, key, pool):
        if key not in c and self.r.random() < 0.5:
            c[key] = self.r.choice(pool)

    def fill(self, c, sync=True, console=False):
        self.maybe(c, "threshold", self.levels)
        if sync:
            self.maybe(c, "async", ["false", ""])
        self.maybe(c, "queue_size", self.counts)
        self.maybe(c, "batch_num", self.counts)
        if not console:
            self.maybe(c, "name_mode", ["prefix", "postfix"])
            for k in ("file_perm", "back_perm", "dir_perm"):
                self.maybe(c, k, self.perms)
            self.maybe(c, "backups", self.counts)
            if "size_" in c["type"]:
                self.maybe(c, "size", self.sizes)
            elif "pattern" not in c:
                c["pattern"] = "2006"
        return c


def run(ck, kind, probes, per, scratch=None, n=0):
    """probes: (probe, what is expected, judge)"""
    binary = build(ck, "clock" if kind == "batch" else "main")
    forms = [("struct", False), ("yaml", False), ("yaml", True), ("json", False), ("file.yml", True), ("file.json", False)]
    shards = [probes[i:i + per] for i in range(0, len(probes), per)]

    def one(k):
        d = ck.dir("o") if not scratch else tempfile.mkdtemp(prefix="verif-c18-", dir=scratch)
        try:
            form, plain = forms[(k + n + ck.seed) % len(forms)]
            rn = run_harness(binary, "options", {"Dir": d, "Form": form, "Plain": plain, "Probes": [p for p, _, _ in shards[k]]}, timeout=300)
        finally:
            subprocess.call(["chmod", "-R", "u+rwx", d])
            shutil.rmtree(d, ignore_errors=True)
        if rn.crashed:
            return [(shards[k][0], "the process died: " + rn.err[:1500], form)], 0
        res = result(rn, "options harness")
        if isinstance(res, dict):
            return [(shards[k][0], "the configuration is refused: " + res["Err"], form)], 0
        bad, skipped = [], 0
        for (p, w, judge), o in zip(shards[k], res):
            if o["Skip"]:
                skipped += 1
                continue
            b = o["Panic"] or judge(o, w)
            if b:
                bad.append(((p, w, judge), b, form))
        return bad, skipped
    all_bad, skipped = [], 0
    for b, s in parallel(one, range(len(shards))):
        all_bad += b
        skipped += s
    return all_bad, skipped


def check(ck, name, kind, probes, per=100, scratch=None, retry=0):
    bad, skipped = run(ck, kind, probes, per, scratch)
    for i in range(retry):   # judged by what took place in time: again, more alone
        if bad:
            bad, _ = run(ck, kind, [b[0] for b in bad], 1 + per // 10, scratch, i)
    for (p, w, _), b, form in bad[:3]:
        ck.violation("%s: output %s (given as %s): %s" % (name, {k: v for k, v in p["Cfg"].items()}, form, b), {"probe": p, "expected": w, "difference": b, "form": form})
    ck.add("traces_validated_against_impl", len(probes) - skipped)
    ck.log("%s: %d probes, %d skipped (the file system takes no such file)" % (name, len(probes), skipped))
    ck.cov.setdefault("worlds", {})[name] = {"probes": len(probes), "skipped": skipped}
    if probes:
        ck.sample({"probes": name, "output": probes[0][0]["Cfg"], "expected": probes[0][1]}, 8)


# ---------------------------------------------------------------------- what a probe shows

def j_size(o, w):
    a, b = o["Files"]
    f = w["file"]
    if a != {f: w["limit"]}:
        return "a file of %d bytes: after one record of one byte there are %s, expected no roll below %d" % (w["limit"] - 1, a, w["limit"])
    if b != {f: 1, w["roll"]: w["limit"]}:
        return "a file of %d bytes: after another record there are %s, expected the roll %s" % (w["limit"], b, w["roll"])


def j_rolls(o, w):
    got = o["Files"][0]
    if w["arch"]:
        got = {k: (-1 if k.endswith(w["arch"]) else v) for k, v in got.items()}
    if got != w["files"]:
        return "after %d records with a limit of one byte there are %s, expected %s" % (w["n"], got, w["files"])


def j_perm(o, w):
    if o["Modes"][0] != w:
        return "modes %s, expected %s" % ({k: oct(v) for k, v in o["Modes"][0].items()}, {k: oct(v) for k, v in w.items()})


def j_level(o, w):
    if o["Text"] != w:
        return "records of levels %r pass, expected %r" % (o["Text"], w)


def j_queue(o, w):
    if o["N"] != w:
        return "while the target is stuck %s%d calls return, expected %d" % ("at least " if o["N"] > w else "", o["N"], w)


def j_batch(o, w):
    got = [[f["after"], f["size"]] for f in o["Files"]]
    if got != w:
        return "[records logged, bytes written]: %s, expected %s" % (got, w)


def rollname(c, n=1):
    f = "f.log"
    return "%d.%s" % (n, f) if c.get("name_mode") == "prefix" else "%s.%d" % (f, n)


def c18(ck):
    t = ck.thorough
    sizes = meanings(ck, "sizes", "size", "019KMGx-" if not t else "01259KMGkBx-", 4, ["10K", "1023K", "1024K", "100M", "1023M", "7G", "100G", "1048576", "0001048576", "2147483647", "2147483648", "4294967296",
                     "4294967297K", "4194304K", "4194303M", "1099511627776", "4611686018427387903", "4611686018427387904", "4503599627370495K", "4503599627370496K", "4398046511103M", "4398046511104M", "4294967295G", "4294967296G",
                     "5KB", "5MB", "5kb", "10m", "ten", "1.5M", "5K5", "K5", "MK", "1MK"])
    counts = meanings(ck, "counts", "count", "0125-x" if not t else "01259-x", 3 if not t else 4, ["500", "501", "1000", "1001", "99999", "100000", "100001", "0100001", "999999999", "99999999999999999999", "00000000000000000000005",
                      "5K", "20x", "-100", "five", "1.5", "19", "20", "21", "099", "499", "2e1"])
    octal = ["0" + a + b + c for a in "01234567" for b in "01234567" for c in "01234567"]
    perms = meanings(ck, "perms", "perm", "", -1, octal + ["0", "00", "07", "070", "0077", "00644", "01000", "07777", "0888", "08", "rw", "", "-1", "-0644", "0644x", "x", "u=rw", "0999", "001000"])
    levels = meanings(ck, "levels", "level", "", -1, ["", "x", "loud", "al", "tr", "warning", "fatal", "err", "crit", "4", "off ", " off", "information", "none"])
    g = Gen(ck, sizes, counts, perms, levels)
    r = random.Random(ck.seed * 7 + 1)
    pick = lambda d, n: list(d) if n is None or len(d) <= n else sorted(r.sample(sorted(d), n))

    ps, big = [], []
    for x in pick([k for k, v in sizes.items() if v["unit"] != "open"], None):
        lim = bytes_of(sizes[x])
        if lim > 1 << 62:
            continue
        c = g.fill({"type": "size_rolling_file", "size": x})
        if c.get("threshold"):
            c["threshold"] = "all"
        if r.random() < 0.2 and x == "":
            del c["size"]
        p = ({"Kind": "size", "Cfg": c, "File": "f.log", "Pre": lim - 1, "N": 2}, {"file": "f.log", "limit": lim, "roll": rollname(c)}, j_size)
        (big if lim > 1 << 40 else ps).append(p)
    check(ck, "sizes", "size", ps, 100)
    # files of up to 2^62 bytes, where the file system takes them
    shm = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    check(ck, "large sizes", "size", big, 100, scratch=shm)

    ps = []
    for x in pick(counts, None):
        n = counts[x]["backups"]
        c = g.fill({"type": "size_rolling_file", "size": "1", "backups": x})
        c.pop("threshold", None)
        if r.random() < 0.15:
            c["archive"] = r.choice(["zip", "gzip"])
        arch = {"zip": ".zip", "gzip": ".gz"}.get(c.get("archive"), "")
        k = 23
        want = {"f.log": k}
        for i in range(1, k):   # backups beyond the number are put in archives, or removed
            if i >= k - n:
                want[rollname(c, i)] = i
            elif arch:
                want[rollname(c, i) + arch] = -1
        ps.append(({"Kind": "rolls", "Cfg": c, "File": "f.log", "Pre": -1, "N": k}, {"n": k, "file": "f.log", "arch": arch, "files": want}, j_rolls))
    check(ck, "backups", "rolls", ps, 40)

    ps = []
    known = [x for x in perms if not perms[x]["open"]]
    for i, x in enumerate(known):
        a, b, d = x, known[i * 7 % len(known)], known[i * 13 % len(known)]
        c = g.fill({"type": "size_rolling_file", "size": "1", "file_perm": a, "back_perm": b, "dir_perm": d})
        c.pop("threshold", None)
        m = [perms[y]["perm"] if perms[y]["perm"] >= 0 else dflt for y, dflt in ((a, 0o600), (b, 0o500), (d, 0o760))]
        ps.append(({"Kind": "perm", "Cfg": c, "File": "new/f.log", "Pre": -1}, {"new": m[2], "new/f.log": m[0], "new/" + rollname(c): m[1]}, j_perm))
    check(ck, "permissions", "perm", ps, 80)

    ps = []
    for x in pick(levels, None):
        c = {"type": r.choice(["size_rolling_file", "time_rolling_file"]), "threshold": x, "async": r.choice(["true", "false", ""]), "size": "1M"}
        if x == "" and r.random() < 0.5:
            del c["threshold"]
        c = g.fill(c, sync=False)
        thr = levels[x]["level"]
        ps.append(({"Kind": "level", "Cfg": c, "File": "f.log", "Pre": -1}, LV[max(0, thr - 2):], j_level))
    check(ck, "thresholds", "level", ps, 60)

    ps = []
    for x in pick(counts, None):
        for typ in ("size_rolling_file", "console"):
            q = counts[x]["queue"]
            c = g.fill({"type": typ, "async": "true", "queue_size": x, "size": "100M"}, sync=False, console=typ == "console")
            c.pop("threshold", None)
            b = counts[c.get("batch_num", "")]["batch"] if c.get("batch_num", "") in counts else 20
            ps.append(({"Kind": "queue", "Cfg": c, "File": "" if typ == "console" else "f.log", "Pre": -1, "Limit": q + b}, q + b, j_queue))
    check(ck, "queues", "queue", ps, 24, retry=3)

    ps = []
    for x in pick(counts, None):
        c = {"type": r.choice(["size_rolling_file", "time_rolling_file"]), "batch_num": x, "size": "100M", "async": r.choice(["true", "true", "true", "false", ""])}
        if c["async"] == "" and r.random() < 0.5:
            del c["async"]
        c = g.fill(c, sync=False)
        c.pop("threshold", None)
        b = counts[x]["batch"] if c.get("async") == "true" else 1
        n = 2 * b + 1
        q = counts[c.get("queue_size", "")]["queue"] if c.get("queue_size", "") in counts else 1000
        want = ([[1, 0]] if b > 1 else []) + [[k, k] for k in range(b, n + 1, b)]
        ps.append(({"Kind": "batch", "Cfg": c, "File": "f.log", "Pre": -1, "N": n}, want, j_batch))
    check(ck, "batches", "batch", ps, 25)

    # all together: histories of the Rolling specification with options written in many ways
    ws = []
    small = [x for x, v in sizes.items() if v["unit"] == "B" and 2 <= bytes_of(v) <= 2000] + [x for x, v in sizes.items() if v["unit"] == "K" and bytes_of(v) <= 20480]
    few = [x for x, v in counts.items() if v["backups"] <= 5]
    for i in range(40 if t else 10):
        kind = ("size", "time")[i % 2]
        mode, arch = r.choice(["prefix", "postfix"]), r.choice(["none", "zip", "gzip"])
        x, b = r.choice(small), r.choice(few)
        pf, pb, pd = (r.choice(known) for _ in range(3))
        val = lambda y, d: perms[y]["perm"] if perms[y]["perm"] >= 0 else d
        opts = {"backups": b, "file_perm": pf, "back_perm": pb, "dir_perm": pd, "queue_size": r.choice(sorted(counts)), "batch_num": r.choice(sorted(counts)), "async": r.choice(["false", ""])}
        lim = bytes_of(sizes[x])
        lens = {1, max(1, lim // 2), lim} if kind == "size" else {1}
        if kind == "size":
            opts["size"] = x
        ws.append(RWorld("all%d" % i, kind=kind, mode=mode, archive=arch, limit=lim, rolls=counts[b]["backups"], lens=lens, ops=24, sim=8, env=("restart",) if kind == "size" else ("tick", "restart"),
                         periods=20, fperm=val(pf, 0o600), bperm=val(pb, 0o500), dperm=val(pd, 0o760), mask=r.choice([0, 0o22]), where="n/log", top="none", opts=opts))
    parallel(lambda w: check_rworld(ck, w, True, None), ws, CORES)
