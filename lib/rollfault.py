"""C17, C24: the real writer with one system call made to fail, or killed at one system call.
The directories found are judged by the predicates of the Rolling specification, evaluated by TLC."""
import gzip, io, stat, zipfile
from core import *
from rolling import rbyte

CALLS = ("openat open creat mkdirat mkdir renameat renameat2 rename unlinkat unlink rmdir fchmodat fchmodat2 chmod fchmod getdents64 write pwrite64 "
         "writev close newfstatat fstat statx lseek read pread64 copy_file_range sendfile splice ftruncate truncate linkat link symlinkat fsync "
         "fdatasync fallocate utimensat").split()
BROKEN = 800


def runs(bs):
    out = []
    for b in bs:
        if out and out[-1][0] == b:
            out[-1][1] += 1
        else:
            out.append([b, 1])
    return out


def body_of(world, bs, lens):
    """The messages a content consists of; BROKEN for anything that is not a whole message."""
    back = {rbyte(m): m for m in lens}
    out = []
    for b, n in runs(bs):
        m = back.get(b)
        out.append(m if m is not None and lens[m] == n else BROKEN)
    return out


def observe(world, d, lens):
    es, what = [], []
    root = os.path.join(d, world.where)
    for f in sorted(os.listdir(root)) if os.path.isdir(root) else []:
        p = os.path.join(root, f)
        st = os.lstat(p)
        if stat.S_ISDIR(st.st_mode):
            if f != ".log4g_tmp":
                es.append({"name": f, "t": "dir", "body": [], "mode": 0})
            continue
        with open(p, "rb") as fh:
            bs = fh.read()
        t = "file"
        try:
            if f.endswith(".zip") and world.archive == "zip":
                z = zipfile.ZipFile(io.BytesIO(bs))
                bs, t = b"".join(z.read(x) for x in z.namelist()), "arch"
            elif f.endswith(".gz") and world.archive == "gzip":
                bs, t = gzip.decompress(bs), "arch"
        except Exception as ex:
            what.append("%s is not a readable archive (%s)" % (f, ex))
        b = body_of(world, bs, lens)
        if BROKEN in b:
            what.append("%s contains %s" % (f, runs(bs)))
        es.append({"name": f, "t": t, "body": [m for m in b if m != BROKEN], "mode": stat.S_IMODE(st.st_mode)})
    return es, what


def verdicts(ck, world, obs):
    """TLC evaluates the predicates of the specification on each observation."""
    parts = [obs[i:i + 60] for i in range(0, len(obs), 60)]
    return [v for l in parallel(lambda p: verdicts1(ck, world, p), parts) for v in l]


def verdicts1(ck, world, obs):
    body = "Obs == " + tla([{k: o[k] for k in ("dir", "sent", "from", "fails", "crashes")} for o in obs]) + "\nOInit == ObsInit(Obs)\n"
    out = {}

    def got(s):
        v = json.loads(s[1:])
        out[v["id"] - 1] = v
    run_tlc(ck, "MC_obs", "Rolling", world.consts, body=body, cfg="INIT OInit\nNEXT ObsNext\nCHECK_DEADLOCK FALSE\nINVARIANT PrintVerdict\n",
            on_print=got)
    if len(out) != len(obs):
        raise ToolError("verdicts on %d of %d observations" % (len(out), len(obs)))
    return [out[i] for i in range(len(obs))]


class Faults:
    def __init__(self, ck, world, ops, more):
        """ops, more: lists of ("write", len) and ("tick", k): those of the run disturbed and those of the run after a kill."""
        self.ck, self.w, self.ops, self.more = ck, world, ops, more
        self.binary = build(ck, "clock" if world.kind == "time" else "main")
        self.base = ck.dir("f")

    def fresh(self):
        d = self.ck.dir("x")
        if self.w.top == "dir":
            os.makedirs(os.path.join(d, self.w.where))
        for e in self.w.init:
            p = os.path.join(d, self.w.where, e["name"])
            if e.get("t") == "dir":
                os.mkdir(p)
            else:
                with open(p, "wb") as f:
                    f.write(b"".join(bytes([rbyte(m)]) * self.w.initlens[m] for m in e.get("body", [])))
                os.chmod(p, e.get("mode", 0o644))
        return d

    def concrete(self, ops, first):
        out, n = [], first
        for o, a in ops:
            if o == "write":
                out.append({"Op": "write", "Byte": rbyte(n), "Len": a})
                n += 1
            else:
                out.append({"Op": "tick", "Secs": a * self.w.step})
        return out

    def sent(self, ops, per):
        out = []
        for o, a in ops:
            if o == "write":
                out.append({"len": a, "per": per, "st": "ok"})
            else:
                per += a
        return out, per

    def run(self, d, ops, first, per, prefix=()):
        sc = {"Dir": d, "Cfg": self.w.cfg(), "Mask": self.w.mask, "Start": self.w.start + (per - 1) * self.w.step, "Ops": self.concrete(ops, first)}
        return run_harness(self.binary, "rollraw", sc, timeout=60, env={"TZ": self.w.tz, "GOMAXPROCS": "1"}, prefix=prefix)

    def points(self):
        """The system calls on files of the log made by the undisturbed run."""
        d = self.fresh()
        log = os.path.join(self.base, "trace")
        r = self.run(d, self.ops, 1, 1, ("strace", "-f", "-y", "-qq", "-s", "8", "-e", "trace=" + ",".join("?" + c for c in CALLS), "-o", log))
        if not r.out.endswith("E"):
            raise ToolError("traced run failed: %s %s" % (r.out[-200:], r.err[-500:]))
        per_tid = {}
        with open(log, errors="replace") as f:
            for line in f:
                m = re.match(r"(\d+)\s+(\w+)\((.*)", line)
                if m:
                    per_tid.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
        tid = max(per_tid, key=lambda t: sum(d in a for _, a in per_tid[t]))
        pts, count, acks, on = [], {}, 0, False
        for c, a in per_tid[tid]:
            count[c] = count.get(c, 0) + 1
            if c == "write" and re.search(r'^\d+<pipe:[^>]*>, "[SWE]", 1\)', a):
                ch = re.search(r'"(.)"', a).group(1)
                on = ch == "S" or on and ch != "E"
                acks += ch == "W"
            if on and d in a:
                pts.append({"call": c, "nth": count[c], "acks": acks, "args": a[:200]})
        shutil.rmtree(d)
        if acks != sum(o == "write" for o, _ in self.ops):
            raise ToolError("trace shows %d acknowledged writes" % acks)
        return pts

    def lens(self, sent):
        l = {i + 1: s["len"] for i, s in enumerate(sent)}
        l.update(self.w.initlens)
        return l

    # ------------------------------------------------------------ killed
    def kill(self, pt):
        d = self.fresh()
        try:
            r = self.run(d, self.ops, 1, 1, ("strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + pt["call"],
                                             "-e", "inject=%s:signal=SIGKILL:when=%d" % (pt["call"], pt["nth"])))
            acks = r.out.count("W")
            if "P" in r.out or r.crashed and "goroutine" in r.err:
                return [dict(pt=pt, fatal="panic: " + r.err[-800:] + r.out[-300:])]
            whole = r.out.endswith("E")
            n = acks if whole else min(acks + 1, sum(o == "write" for o, _ in self.ops))
            done, k, per = [], 0, 1
            for o, a in self.ops:          # what was done of the operations
                if o == "write":
                    if k == n:
                        break
                    k += 1
                    done.append((o, a))
                else:
                    done.append((o, a))
            while done and not whole and done[-1][0] == "tick":
                done.pop()
            sent, per = self.sent(done, 1)
            if n > acks:
                sent[acks]["st"] = "crash"
            es, what = observe(self.w, d, self.lens(sent))
            o1 = dict(pt=pt, when="killed", dir=es, what=what, sent=sent, clean=False, fails=0, crashes=1, keep=False, **{"from": 1})
            sent = [dict(s) for s in sent]
            more, per2 = self.sent(self.more, per)
            r = self.run(d, self.more, n + 1, per)
            if not r.out.endswith("E"):
                return [o1, dict(pt=pt, fatal="the next run failed: " + r.err[-800:] + r.out[-300:])]
            sent += more
            es, what = observe(self.w, d, self.lens(sent))
            return [o1, dict(pt=pt, when="next run", dir=es, what=what, sent=sent, clean=True, fails=0, crashes=1, keep=True, **{"from": n + 1})]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    # ------------------------------------------------------------ a call fails
    def fail(self, pt, errno, lastroll):
        d = self.fresh()
        log = d + ".trace"
        try:
            r = self.run(d, self.ops, 1, 1, ("strace", "-f", "-y", "-qq", "-o", log, "-e", "trace=" + pt["call"],
                                             "-e", "inject=%s:error=%s:when=%d" % (pt["call"], errno, pt["nth"])))
            with open(log, errors="replace") as f:
                inj = [l for l in f if "(INJECTED)" in l]
            # which thread's call was hit is checked here: only calls on files of the log count
            if len(inj) != 1 or d not in inj[0]:
                return []
            call = inj[0]
            if r.timeout or "P" in r.out or r.crashed:
                return [dict(pt=pt, call=call, fatal="the process failed: " + r.err[-1500:] + r.out[-300:])]
            if not r.out.endswith("E"):
                raise ToolError("run failed: %s %s" % (r.out[-200:], r.err[-500:]))
            sent, _ = self.sent(self.ops, 1)
            es, what = observe(self.w, d, self.lens(sent))
            cur = os.path.join(d, self.w.where, self.w.base)
            top = os.path.join(d, self.w.where)
            oncur = re.search(r'["<]%s[">]' % re.escape(cur), call)
            ontop = re.search(r'["<]%s/?[">]' % re.escape(top), call) or any(
                re.search(r'["<]%s/?[">]' % re.escape(os.path.dirname(top) if i else d), call) for i in (0, 1))
            may = (oncur and not re.search(r"rename|chmod|close|unlink|O_RDONLY", call)) or (
                ontop and re.search(r"mkdir|stat", call))
            i = pt["acks"]
            have = {m for e in es for m in e["body"]}
            if may and i < len(sent) and i + 1 not in have:
                sent[i]["st"] = "lost"
            clean = i < lastroll
            return [dict(pt=pt, call=call, when="call failed", dir=es, what=what, sent=sent, clean=clean, fails=1, crashes=0, keep=clean, **{"from": 1})]
        finally:
            shutil.rmtree(d, ignore_errors=True)
            if os.path.exists(log):
                os.unlink(log)


def judge(ck, world, obs, kind):
    bad = []
    for o in [o for o in obs if "fatal" in o]:
        bad.append((o, [o["fatal"]]))
    obs = [o for o in obs if "fatal" not in o]
    for o, v in zip(obs, verdicts(ck, world, obs) if obs else []):
        why = list(o["what"])
        if not v["lossless"]:
            why.append("messages are missing, repeated or out of order (Lossless)")
        if not v["inorder"]:
            why.append("messages are out of order (InOrder)")
        if not v["full"]:
            why.append("a file was rolled below its limit (RolledFull)")
        if not v["label"]:
            why.append("a backup has the wrong label (LabelRule)")
        if o["clean"] and not v["settled"]:
            why.append("the file was not rolled when it was due (Settled)")
        if o["keep"] and not v["keep"]:
            why.append("more backups than configured remain after a roll")
        if why:
            bad.append((o, why))
    return bad


def check_faults(ck, world, ops, more, kills=True, errors=("EIO",), limit=None):
    f = Faults(ck, world, ops, more)
    pts = f.points()
    lastroll = max([p["acks"] for p in pts if p["call"].startswith("rename") and world.base + '"' in p["args"]] or [0])
    jobs = []
    if kills:
        jobs += [("kill", p, None) for p in pts]
    for e in errors:
        jobs += [("fail", p, e) for p in pts]
    if limit and len(jobs) > limit:
        jobs = ck.rng.sample(jobs, limit)
    go = lambda j: f.kill(j[1]) if j[0] == "kill" else f.fail(j[1], j[2], lastroll)
    per = parallel(go, jobs, CORES + 2)
    obs = [dict(o, job=j) for j, l in zip(jobs, per) for o in l]
    bad = judge(ck, world, obs, "")
    # each again
    good = 0
    for o, why in bad[:4]:
        again = judge(ck, world, [dict(x, job=o["job"]) for x in go(o["job"])], "")
        if again:
            good += 1
            ck.violation("world %s, %s at call %d of %s(%s): %s" % (
                world.name, o["job"][0], o["pt"]["nth"], o["pt"]["call"], o["pt"]["args"][:120], "; ".join(why)),
                {"world": world.name, "job": o["job"], "ops": ops, "more": more, "observation": {k: o.get(k) for k in ("when", "call", "dir", "sent")}, "why": why})
    if bad and not good:
        raise ToolError("a difference did not repeat: %s" % bad[0][1])
    calls = {}
    for j in jobs:
        calls[j[0] + " " + j[1]["call"]] = calls.get(j[0] + " " + j[1]["call"], 0) + 1
    ck.add("traces_validated_against_impl", len(obs))
    ck.add("system_calls_disturbed", len(jobs))
    ck.log("world %s: %d system calls, %d runs disturbed, %d directories judged: %s" % (world.name, len(pts), len(jobs), len(obs), calls))
    ck.cov.setdefault("fault_worlds", {})[world.name] = {"calls": calls, "directories": len(obs)}
