"""C19: the Archive and Collect specifications against the real archives."""
import gzip, io, tarfile, warnings, zipfile
from core import *
import rollfault

warnings.filterwarnings("ignore", "Duplicate name")
CALLS = rollfault.CALLS


# ---------------------------------------------------------------------- copies

def copies(ck, name, names, contents, ents, n, faults, limit=None):
    hs = []
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Preserved\nINVARIANT Growing\nINVARIANT OneEntry\nINVARIANT Refused\nINVARIANT PrintHistory\n"
    run_tlc(ck, "MC_" + name, "Archive", {"Names": set(range(names)), "Contents": set(range(contents)), "MaxEnts": ents, "MaxCopies": n, "MaxFails": 0}, cfg=cfg, timeout=800, heap="6g",
            on_print=lambda s: hs.append(json.loads(s[1:])))
    r = random.Random(ck.seed * 17 + len(name))
    r.shuffle(hs)
    total = len(hs)
    hs = hs[:limit]
    cases = [{"Kind": h["k"], "Ents": h["e"], "Copies": h["h"], "Salt": r.randrange(1 << 30)} for h in hs]
    binary = build(ck, "main")
    shards = [cases[i::CORES * 2] for i in range(CORES * 2)]

    def one(sh):
        d = ck.dir("t")
        run = run_harness(binary, "archive", {"Cases": sh, "Faults": faults // len(shards) + 1 if faults else 0}, timeout=400, env={"TMPDIR": d})
        shutil.rmtree(d, ignore_errors=True)
        if run.crashed:
            return {"Bad": [{"Case": None, "What": "the process died: " + run.err[:1500]}], "Copies": 0, "Faults": 0}
        return result(run, "archive harness")
    nc = nf = 0
    for res in parallel(one, [s for s in shards if s]):
        nc += res["Copies"]
        nf += res["Faults"]
        for b in res["Bad"][:2]:
            if len(ck.violations) < 4:
                ck.violation("%s: %s" % (name, b["What"]), b)
    ck.add("traces_validated_against_impl", len(cases))
    ck.add("copies_compared", nc)
    ck.add("faults_injected", nf)
    ck.log("%s: %d chains of copies in the specification, %d replayed, %d copies, %d failing reads or writes" % (name, total, len(cases), nc, nf))
    ck.cov.setdefault("worlds", {})[name] = {"chains": total, "replayed": len(cases), "copies": nc, "faults": nf}
    if cases:
        ck.sample({"world": name, "case": cases[0]})


def design(ck, deep):
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Preserved\nINVARIANT Growing\nINVARIANT OneEntry\nINVARIANT Refused\nPROPERTY Ends\n"
    r = run_tlc(ck, "MC_fail", "Archive", {"Names": {0, 1}, "Contents": {0, 1}, "MaxEnts": 2, "MaxCopies": 3, "MaxFails": 1}, cfg=cfg, workers=CORES, timeout=600)
    ck.log("copies with failures: %d states" % r.distinct)
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Lossless\nINVARIANT LosslessCrash\nINVARIANT Bounded\nPROPERTY Grows\nPROPERTY Safe\n"
    for k, c in enumerate([dict(MaxRolls=1, InitArch=Raw("<<>>"), HasArch=False, InitBacks=Raw("<<>>"), EnvOps={"restart"}, MaxFails=2, MaxCrashes=2),
                           dict(MaxRolls=2, InitArch=[-9, -8], HasArch=True, InitBacks=[-3, -2, -1], EnvOps={"restart"}, MaxFails=2, MaxCrashes=1),
                           dict(MaxRolls=1, InitArch=Raw("<<>>"), HasArch=False, InitBacks=[-1], EnvOps={"take"}, MaxFails=1, MaxCrashes=1)]):
        r = run_tlc(ck, "MC_col%d" % k, "Collect", dict(c, MaxOps=6 if deep else 5), cfg=cfg, workers=CORES, timeout=800)
        ck.log("collecting, model %d: %d states" % (k, r.distinct))


# ---------------------------------------------------------------------- collecting

def cbyte(m):
    return m if m > 0 else 256 + m


def clen(m, salt):
    return random.Random("%d %d" % (m, salt)).choice([1, 2, 7, 100, 512, 513, 5000, 40000])


class Col:
    def __init__(self, name, kind="zip", rolls=1, arch=(), backs=(), ops=6, env=("restart",), where="log/app.log", path="arch/all.zip", prefix=False, cwd=False, plain=False, names=None, salt=1):
        self.name, self.kind, self.rolls, self.arch, self.backs, self.ops, self.env = name, kind, rolls, list(arch), list(backs), ops, env
        self.where, self.path, self.prefix, self.cwd, self.plain, self.salt = where, path, prefix, cwd, plain, salt
        self.names = names or ["old%d" % i for i in range(len(arch))]
        self.consts = {"MaxRolls": rolls, "InitArch": self.arch or Raw("<<>>"), "HasArch": bool(arch), "InitBacks": self.backs or Raw("<<>>"), "MaxOps": ops,
                       "EnvOps": Raw(tla(set(env)) if env else "{}"), "MaxFails": 0, "MaxCrashes": 0}

    def body(self, m):
        return bytes([cbyte(m)]) * clen(m, self.salt)

    def backname(self, i):
        b = os.path.basename(self.where)
        return "%d.%s" % (i, b) if self.prefix else "%s.%d" % (b, i)

    def archive(self):
        if not self.arch:
            return None
        o = io.BytesIO()
        if self.kind == "zip":
            with zipfile.ZipFile(o, "w", zipfile.ZIP_DEFLATED) as z:
                for n, m in zip(self.names, self.arch):
                    z.writestr(zipfile.ZipInfo(n), self.body(m))
        elif self.plain:
            o.write(gzip.compress(self.body(self.arch[0])))
        else:
            with tarfile.open(fileobj=o, mode="w:gz") as t:
                for n, m in zip(self.names, self.arch):
                    ti = tarfile.TarInfo(n)
                    ti.size = len(self.body(m))
                    t.addfile(ti, io.BytesIO(self.body(m)))
        return o.getvalue()

    def script(self, d, ops, first=1):
        import base64
        out, n = [], first
        for o in ops:
            out.append({"Op": o} if o != "write" else {"Op": "write", "Byte": cbyte(n), "Len": clen(n, self.salt)})
            n += o == "write"
        a = self.archive()
        # contents found at start are given as strings: their bytes are written by Python in fault runs
        return {"Dir": d, "File": self.where, "Arch": self.path, "Kind": self.kind, "Prefix": self.prefix, "Rolls": self.rolls, "Ops": out, "Cwd": self.cwd,
                "Archive": base64.b64encode(a).decode() if a else None}

    def prepare(self, d):
        os.makedirs(os.path.join(d, os.path.dirname(self.where)), exist_ok=True)
        for i, m in enumerate(self.backs):
            with open(os.path.join(d, os.path.dirname(self.where), self.backname(i + 1)), "wb") as f:
                f.write(self.body(m))
        a = self.archive()
        if a:
            os.makedirs(os.path.join(d, os.path.dirname(self.path)), exist_ok=True)
            with open(os.path.join(d, self.path), "wb") as f:
                f.write(a)


def check_col(ck, w, limit=None):
    hs = []
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Lossless\nINVARIANT Bounded\nINVARIANT PrintHistory\nPROPERTY Grows\nPROPERTY Safe\n"
    run_tlc(ck, "MC_" + w.name, "Collect", w.consts, cfg=cfg, on_print=lambda s: hs.append(json.loads(s[1:])["ops"]))
    if limit:
        hs = random.Random(ck.seed).sample(hs, min(limit, len(hs)))
    binary = build(ck, "internal")
    base = ck.dir("c")
    scs = []
    for i, h in enumerate(hs):
        d = os.path.join(base, "h%d" % i)
        w.prepare(d)
        scs.append(w.script(d, [o["op"] for o in h]))
    run = run_harness(binary, "", scs, timeout=300, args=("-test.run", "^TestZZVerif$"))
    if run.crashed:
        ck.violation("%s: the process died: %s" % (w.name, run.err[:1500]), {"world": w.name})
        return
    steps = 0
    runs = lambda l: [[cbyte(m), clen(m, w.salt)] for m in l]
    for h, sc, res in zip(hs, scs, result(run, "internal harness")):
        for k, (o, st) in enumerate(zip(h, res)):
            steps += 1
            bad = list(st["Extra"] or [])
            if st["Panic"]:
                bad.append(st["Panic"])
            got = [r for e in st["Backs"] or [] for r in e["Runs"]]
            if got != runs(o["backs"]):
                bad.append("backups contain %s, expected %s" % (got, runs(o["backs"])))
            if (st["Cur"] or []) != runs(o["cur"]):
                bad.append("the file contains %s, expected %s" % (st["Cur"], runs(o["cur"])))
            if st["Has"] != o["has"]:
                bad.append("archive there: %s, expected %s" % (st["Has"], o["has"]))
            ents = st["Ents"] or []
            if [e["Runs"] for e in ents] != [[r] for r in runs(o["arch"])]:
                bad.append("the archive contains %s, expected %s" % ([e["Runs"] for e in ents], [[r] for r in runs(o["arch"])]))
            else:
                for e, m in zip(ents, o["arch"]):
                    if m in w.arch:
                        want = {w.names[w.arch.index(m)]} if not w.plain else {os.path.basename(e["Name"])}
                    else:
                        want = {w.backname(w.backs.index(m) + 1 if m < 0 else len(w.backs) + m)}
                    if os.path.basename(e["Name"]) not in want and e["Name"] not in want:
                        bad.append("message %d is in the entry %s, expected %s" % (m, e["Name"], want))
            if bad:
                if len(ck.violations) < 4:
                    ck.violation("%s: after %s: %s" % (w.name, " ".join(x["op"] for x in h[:k + 1]), "; ".join(bad[:3])), {"world": w.name, "script": {x: y for x, y in sc.items() if x != "Archive"}, "differences": bad})
                break
    shutil.rmtree(base, ignore_errors=True)
    ck.add("traces_validated_against_impl", len(hs))
    ck.log("%s: %d histories, %d directories compared" % (w.name, len(hs), steps))
    ck.cov.setdefault("worlds", {})[w.name] = {"histories": len(hs), "directories": steps}


def observe(w, d, n):
    """The messages in the archive, the backups and the file; None with a reason for anything that is no message."""
    msgs = {bytes([cbyte(m)]): m for m in list(range(1, n + 1)) + w.arch + w.backs}
    why = []

    def msg(bs, what):   # whole messages, one after the other (more than one where rolling failed)
        out, all = [], bs
        while bs or not out:
            m = msgs.get(bs[:1])
            if m is None or not bs.startswith(w.body(m)):
                why.append("%s contains no whole messages: %s" % (what, rollfault.runs(all)[:5]))
                return [0]
            out.append(m)
            bs = bs[len(w.body(m)):]
        return out
    arch, p = [], os.path.join(d, w.path)
    has = os.path.exists(p)
    if has:
        try:
            bs = open(p, "rb").read()
            if w.kind == "zip":
                z = zipfile.ZipFile(io.BytesIO(bs))
                for i in z.infolist():
                    arch += msg(z.read(i), "entry " + i.filename)
            else:
                raw = gzip.decompress(bs)
                try:
                    t = tarfile.open(fileobj=io.BytesIO(raw))
                except tarfile.ReadError:
                    if not w.plain:
                        raise
                    arch += msg(raw, "the archive")
                else:
                    for i in t:
                        arch += msg(t.extractfile(i).read(), "entry " + i.name)
        except Exception as ex:
            why.append("the archive is not readable: %r" % ex)
    backs, cur = [], []
    root, b = os.path.join(d, os.path.dirname(w.where)), os.path.basename(w.where)
    num = []
    for f in os.listdir(root):
        t = f[:-len(b) - 1] if w.prefix and f.endswith("." + b) else f[len(b) + 1:] if not w.prefix and f.startswith(b + ".") else ""
        if t.isdigit():
            num.append((int(t), f))
    for _, f in sorted(num):
        backs += msg(open(os.path.join(root, f), "rb").read(), f)
    if os.path.exists(os.path.join(root, b)):
        bs = open(os.path.join(root, b), "rb").read()
        cur = msg(bs, "the file") if bs else []
    return arch, backs, cur, why, len(num)


class ColFaults:
    def __init__(self, ck, w, writes, more):
        self.ck, self.w, self.n, self.more = ck, w, writes, more
        self.binary = build(ck, "internal")

    def run(self, d, n, first, prefix=()):
        return run_harness(self.binary, "raw", dict(self.w.script(d, ["write"] * n, first), Archive=None), timeout=60, env={"GOMAXPROCS": "1"}, prefix=prefix, args=("-test.run", "^TestZZVerif$"))

    def fresh(self):
        d = self.ck.dir("x")
        self.w.prepare(d)
        return d

    def points(self):
        d = self.fresh()
        log = d + ".trace"
        r = self.run(d, self.n, 1, ("strace", "-f", "-y", "-qq", "-s", "8", "-e", "trace=" + ",".join("?" + c for c in CALLS), "-o", log))
        if not r.out.endswith("E"):
            raise ToolError("traced run failed: %s %s" % (r.out[-200:], r.err[-500:]))
        per = {}
        for line in open(log, errors="replace"):
            m = re.match(r"(\d+)\s+(\w+)\((.*)", line)
            if m:
                per.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
        os.unlink(log)
        tid = max(per, key=lambda t: sum(d in a for _, a in per[t]))
        pts, count, acks, on = [], {}, 0, False
        for c, a in per[tid]:
            count[c] = count.get(c, 0) + 1
            m = re.search(r'^\d+<pipe:[^>]*>, "([SWE])", 1\)', a)
            if c == "write" and m:
                on = m.group(1) == "S" or on and m.group(1) != "E"
                acks += m.group(1) == "W"
            if on and d in a:
                pts.append({"call": c, "nth": count[c], "acks": acks, "args": a[:200].replace(d, "")})
        shutil.rmtree(d)
        if acks != self.n:
            raise ToolError("trace shows %d acknowledged writes" % acks)
        return pts

    def kill(self, pt):
        d = self.fresh()
        try:
            r = self.run(d, self.n, 1, ("strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + pt["call"], "-e", "inject=%s:signal=SIGKILL:when=%d" % (pt["call"], pt["nth"])))
            if r.crashed and "goroutine" in r.err:
                return [dict(pt=pt, fatal="panic: " + r.err[-800:])]
            acks = r.out.count("W")
            n = acks if r.out.endswith("E") else min(acks + 1, self.n)
            over = max(1, len(self.w.backs) + 1 - self.w.rolls)
            a, b, c, why, nb = observe(self.w, d, n)
            o1 = dict(pt=pt, when="killed", arch=a, backs=b, nbacks=nb, cur=c, what=why, sent=n, open=n if n > acks else 0, dups=over, clean=False)
            r = self.run(d, self.more, n + 1)
            if not r.out.endswith("E"):
                return [o1, dict(pt=pt, fatal="the next run failed: " + r.err[-800:] + r.out[-300:])]
            a, b, c, why, nb = observe(self.w, d, n + self.more)
            return [o1, dict(pt=pt, when="next run", arch=a, backs=b, nbacks=nb, cur=c, what=why, sent=n + self.more, open=n if n > acks else 0, dups=over, clean=True)]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def fail(self, pt, errno):
        d = self.fresh()
        log = d + ".trace"
        try:
            r = self.run(d, self.n, 1, ("strace", "-f", "-y", "-qq", "-o", log, "-e", "trace=" + pt["call"], "-e", "inject=%s:error=%s:when=%d" % (pt["call"], errno, pt["nth"])))
            inj = [l for l in open(log, errors="replace") if "(INJECTED)" in l]
            if len(inj) != 1 or d not in inj[0]:
                return []
            call = inj[0].replace(d, "")
            if r.timeout or r.crashed:
                return [dict(pt=pt, call=call, fatal="the process failed: " + r.err[-1500:])]
            if not r.out.endswith("E"):
                raise ToolError("run failed: %s %s" % (r.out[-200:], r.err[-500:]))
            a, b, c, why, nb = observe(self.w, d, self.n)
            cur = "/" + self.w.where
            i = pt["acks"] + 1
            may = re.search(r'["<]%s[">]' % re.escape(cur), call) and not re.search(r"rename|chmod|close|unlink|O_RDONLY", call)
            may = may or re.search(r"mkdir|stat", call) and re.search(r'["<]%s/?[">]' % re.escape(os.path.dirname(cur)), call)
            lost = i if may and i <= self.n and i not in a + b + c else 0
            dups = 1 if pt["call"].startswith("unlink") or pt["call"].startswith("rename") else 0
            return [dict(pt=pt, call=call, when="call failed", arch=a, backs=b, nbacks=nb, cur=c, what=why, sent=self.n, open=lost, dups=dups, clean=pt["acks"] + 1 < self.n)]
        finally:
            shutil.rmtree(d, ignore_errors=True)
            if os.path.exists(log):
                os.unlink(log)


def judge(ck, w, obs):
    bad = [(o, [o["fatal"]]) for o in obs if "fatal" in o]
    obs = [o for o in obs if "fatal" not in o]
    out = {}
    if obs:
        ob = [{k: (o[k] if o[k] != [] else Raw("<<>>")) if isinstance(o[k], list) else o[k] for k in ("arch", "backs", "nbacks", "cur", "sent", "open", "dups", "clean")} for o in obs]
        txt = "<<" + ", ".join("[" + ", ".join("%s |-> %s" % (k, v if isinstance(v, Raw) else tla(v)) for k, v in o.items()) + "]" for o in ob) + ">>"

        def got(s):
            v = json.loads(s[1:])
            out[v["id"] - 1] = v["v"]
        run_tlc(ck, "MC_obs", "Collect", w.consts, body="Obs == %s\nASSUME PrintVerdicts(Obs)\nStop == FALSE /\\ UNCHANGED vars" % txt, cfg="INIT Init\nNEXT Stop\nCHECK_DEADLOCK FALSE\n", on_print=got)
        if len(out) != len(obs):
            raise ToolError("verdicts on %d of %d observations" % (len(out), len(obs)))
    for i, o in enumerate(obs):
        v, why = out[i], list(o["what"])
        if not v["lossless"]:
            why.append("messages are missing, repeated or out of order: archive %s, backups %s, file %s" % (o["arch"], o["backs"], o["cur"]))
        if not v["prefix"]:
            why.append("the archive has lost entries: %s" % o["arch"])
        if not v["once"]:
            why.append("entries are repeated: %s" % o["arch"])
        if not v["bounded"]:
            why.append("more backups remain than configured: %s" % o["backs"])
        if why:
            bad.append((o, why))
    return bad


def check_faults(ck, w, writes, more, kills=True, errors=("EIO",)):
    f = ColFaults(ck, w, writes, more)
    pts = f.points()
    jobs = [("kill", p, None) for p in pts if kills] + [("fail", p, e) for e in errors for p in pts]
    go = lambda j: f.kill(j[1]) if j[0] == "kill" else f.fail(j[1], j[2])
    obs = [dict(o, job=j) for j, l in zip(jobs, parallel(go, jobs, CORES + 2)) for o in l]
    bad, good = judge(ck, w, obs), 0
    for o, why in bad[:4]:
        if judge(ck, w, [dict(x, job=o["job"]) for x in go(o["job"])]):
            good += 1
            ck.violation("%s, %s at call %d of %s(%s): %s" % (w.name, o["job"][0], o["pt"]["nth"], o["pt"]["call"], o["pt"]["args"][:120], "; ".join(why)),
                         {"world": w.name, "job": o["job"], "observation": {k: o.get(k) for k in ("when", "call", "arch", "backs", "cur", "sent")}, "why": why})
    if bad and not good:
        raise ToolError("a difference did not repeat: %s" % bad[0][1])
    ck.add("traces_validated_against_impl", len(obs))
    ck.add("system_calls_disturbed", len(jobs))
    ck.log("%s: %d system calls, %d runs disturbed, %d directories judged" % (w.name, len(pts), len(jobs), len(obs)))
    ck.cov.setdefault("fault_worlds", {})[w.name] = {"calls": len(pts), "runs": len(jobs), "directories": len(obs)}


def c19(ck):
    t = ck.thorough
    design(ck, t)
    copies(ck, "pairs", 2, 2, 2, 2, 300)
    copies(ck, "chains", 2, 3, 3, 3, 0, None if t else 6000)
    copies(ck, "many", 1, 2, 6, 2, 200)
    copies(ck, "all contents", 1, 16, 2, 2, 2000 if t else 400, None if t else 3000)
    copies(ck, "all names", 18, 1, 2, 2, 0, None if t else 3000)
    n = 7 if t else 6
    worlds = [Col("zip", ops=n), Col("tgz", kind="gzip", path="arch/all.tar.gz", ops=n), Col("two", rolls=2, ops=n, prefix=True), Col("same dir", kind="gzip", path="log/app.log.tar.gz", ops=n),
              Col("found", rolls=2, arch=[-9, -8, -7], backs=[-3, -2, -1], ops=n - 1, names=["app.log.1", "x/app.log.4", "app.log.1"]),
              Col("found tgz", kind="gzip", path="log/all.tgz", rolls=1, arch=[-9, -8], backs=[-2, -1], ops=n - 1, salt=3),
              Col("found gz", kind="gzip", path="a/b/all.gz", rolls=1, arch=[-9], ops=n - 1, plain=True, salt=2),
              Col("taken", env=("take", "restart"), ops=n), Col("taken tgz", kind="gzip", path="all.tgz", env=("take",), ops=n, salt=5), Col("cwd", cwd=True, where="app.log", path="all.zip", ops=n - 1),
              Col("long", ops=25, env=(), salt=4), Col("long tgz", kind="gzip", rolls=3, ops=25, env=(), path="x/y.gz", salt=6)]
    parallel(lambda w: check_col(ck, w, None if t else 400), worlds, 4)
    fw = [(Col("f zip", salt=7), 4, 3), (Col("f tgz", kind="gzip", path="log/all.tgz", salt=8), 4, 3),
          (Col("f found", rolls=2, arch=[-9, -8], backs=[-3, -2, -1], salt=9), 3, 3)]
    if t:
        fw += [(Col("f found tgz", kind="gzip", rolls=1, path="arch/all.tar.gz", arch=[-9, -8], backs=[-3, -2, -1], salt=10), 4, 3), (Col("f prefix", prefix=True, rolls=2, salt=11), 6, 3)]
    for w, k, m in fw:
        check_faults(ck, w, k, m, True, ("EIO", "ENOSPC", "EACCES") if t else ("EIO",))
