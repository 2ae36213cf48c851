"""C13-C17, C20, C24: the Rolling specification against the real file outputs."""
import datetime, zoneinfo
from core import *


def rbyte(m):
    """The byte that stands for a message or a piece found at the start."""
    return 256 - (m - 900) if m > 900 else (m - 1) % 195 + 1


class RWorld:
    INV = ["Lossless", "InOrder", "RolledFull", "LabelRule", "OnePeriod", "Modes"]
    PROP = ["Retention", "SizeRule", "Untouched", "ArchivedFirst"]

    def __init__(self, name, kind="size", mode="postfix", base="app.log", limit=5, rolls=2, archive="none", lens=(1, 3, 5), init=(),
                 initlens=(), top="dir", ops=6, env=("restart",), pattern="2006-01-02", step=86400, periods=5, start=0, past=(),
                 fperm=0o600, bperm=0o500, dperm=0o760, mask=0o22, where="log", opts=None, tz="UTC", fails=0, crashes=0, sim=None, cwd=False):
        self.name, self.kind, self.mode, self.base, self.limit, self.rolls, self.archive = name, kind, mode, base, limit, rolls, archive
        self.where, self.opts, self.pattern, self.step, self.tz, self.sim = where, opts or {}, pattern, step, tz, sim
        self.mask, self.cwd, self.start = mask, cwd, start
        self.init = [dict(e) for e in init]
        self.initlens = dict(initlens)
        labels, prank = [], []
        if kind == "time":
            zone = zoneinfo.ZoneInfo(tz)
            t0 = datetime.datetime(2000, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=start)
            for i in range(periods):
                l = gofmt(pattern, (t0 + datetime.timedelta(seconds=i * step)).astimezone(zone))
                if not labels or labels[-1][0] != l:
                    labels.append([l, 1000 + i])
                prank.append(labels[-1][1])
            labels += [[l, r] for l, r in past]
            assert len({l for l, _ in labels}) == len(labels)
        self.consts = {"Kind": kind, "NameMode": mode, "Base": base, "Limit": limit, "MaxRolls": rolls, "Archive": archive,
                       "Lens": set(lens), "InitDir": [{"name": e["name"], "t": e.get("t", "file"), "body": e.get("body", []),
                                                       "mode": e.get("mode", 0o644)} for e in self.init],
                       "InitLens": [[k, v] for k, v in self.initlens.items()] or Raw("<<>>"), "TopInit": top,
                       "Labels": labels or Raw("<<>>"), "PeriodRank": prank or Raw("<<>>"), "FPerm": fperm, "BPerm": bperm, "DPerm": dperm,
                       "Mask": mask, "MaxOps": ops, "EnvOps": Raw(tla(set(env)) if env else "{}"), "MaxFails": fails, "MaxCrashes": crashes}
        self.perms = (fperm, bperm, dperm)
        self.top = top

    def cfg(self):
        c = {"name": "o", "type": self.kind + "_rolling_file", "format": "f", "backups": str(self.rolls), "name_mode": self.mode,
             "file": (self.base if self.cwd else "@/" + self.where + "/" + self.base)}
        if self.kind == "size":
            c["size"] = str(self.limit)
        else:
            c["pattern"] = self.pattern
        if self.archive != "none":
            c["archive"] = self.archive
        f, b, d = self.perms
        if f != 0o600:
            c["file_perm"] = "0%o" % f
        if b != 0o500:
            c["back_perm"] = "0%o" % b
        if d != 0o760:
            c["dir_perm"] = "0%o" % d
        c.update(self.opts)
        return c

    def histories(self, ck):
        hs = []
        cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT PrintHistory\n"
        cfg += "".join("INVARIANT %s\n" % i for i in self.INV) + "".join("PROPERTY %s\n" % p for p in self.PROP)
        args = ()
        if self.sim:
            args = ("-simulate", "num=%d" % self.sim, "-depth", "400", "-seed", str(ck.seed * 7919 + 13))
        run_tlc(ck, "MC_" + self.name, "Rolling", self.consts, cfg=cfg, args=args, timeout=800,
                on_print=lambda s: hs.append(json.loads(s[1:])))
        return hs

    # ---------------------------------------------------------------- concrete operations
    def script(self, h, d):
        """The concrete operations of one behaviour of the specification."""
        W = self.where
        init, ops = [], []
        if self.top == "dir":
            init.append({"Op": "mkdir", "Path": W, "Mode": 0o755})
        for e in self.init:
            p = W + "/" + e["name"]
            if e.get("t", "file") == "dir":
                init.append({"Op": "mkdir", "Path": p, "Mode": 0o755})
            else:
                init.append({"Op": "put", "Path": p, "Mode": e.get("mode", 0o644), "Runs": [{"B": rbyte(m), "N": self.initlens[m]} for m in e.get("body", [])]})
        prev = {e["name"]: {"t": e.get("t", "file")} for e in self.init}
        n = 0
        for o in h["ops"]:
            if o["op"] == "write":
                n += 1
                ops.append({"Op": "write", "Byte": rbyte(n), "Len": o["arg"]})
            elif o["op"] == "restart":
                ops.append({"Op": "restart"})
            elif o["op"] == "tick":
                ops.append({"Op": "tick", "Secs": o["arg"] * self.step})
            elif o["op"] == "rmdir":
                ops.append({"Op": "rmall", "Path": W})
            elif o["op"] == "filedir":
                ops.append({"Op": "put", "Path": W, "Runs": [{"B": 36, "N": 3}]})
            elif o["op"] == "unfiledir":
                ops.append({"Op": "rm", "Path": W})
            else:   # what changed in the directory
                d0, d1 = prev, dirof(o)
                for f in d1:
                    if f not in d0:
                        ops.append({"Op": "mkdir", "Path": W + "/" + f, "Mode": 0o755, "Quiet": True})
                for f in d0:
                    if f not in d1:
                        ops.append({"Op": "rm", "Path": W + "/" + f, "Quiet": True})
                ops[-1].pop("Quiet")
            prev = dirof(o)
        return {"Dir": d, "Cwd": W if self.cwd else "", "Start": self.start, "Cfg": self.cfg(), "Mask": self.mask, "Init": init, "Ops": ops}


def gofmt(pattern, t):
    out, i = "", 0
    for a, b in (("2006", "%Y"), ("06", "%y"), ("01", "%m"), ("02", "%d"), ("15", "%H"), ("04", "%M"), ("05", "%S"), ("Jan", "%b")):
        pattern = pattern.replace(a, b)
    return t.strftime(pattern)


def dirof(o):
    d = o["dir"]
    return d if isinstance(d, dict) else {}


def lens_of(world, h):
    l = {i + 1: s["len"] for i, s in enumerate(h["sent"])}
    l.update(world.initlens)
    return l


def expected_runs(body, lens):
    out = []
    for m in body:
        if lens[m]:
            out.append([rbyte(m), lens[m]])
    return out


def compare_dir(world, o, files, lens, modes=False):
    """Differences between the directory of the specification and the real one."""
    bad = []
    W = world.where
    got = {}
    topdir = None
    for e in files or []:
        if e["Name"] == W:
            topdir = e
        elif e["Name"].startswith(W + "/"):
            got[e["Name"][len(W) + 1:]] = e
        elif (W + "/").startswith(e["Name"] + "/"):
            if modes and o["topMode"] != -1 and e["Mode"] != o["topMode"]:
                bad.append("directory %s has mode %o, expected %o" % (e["Name"], e["Mode"], o["topMode"]))
        else:
            bad.append("unexpected %s outside the log directory" % e["Name"])
    for f in [f for f in got if f == ".log4g_tmp" and got[f]["Type"] == "dir"]:
        del got[f]
    tt = {"dir": "dir", "none": None, "file": "file"}[o["top"]]
    if (topdir["Type"] if topdir else None) != tt:
        bad.append("log directory is %s, expected %s" % (topdir and topdir["Type"], tt))
    if modes and topdir and o["top"] == "dir" and o["topMode"] != -1 and topdir["Mode"] != o["topMode"]:
        bad.append("log directory has mode %o, expected %o" % (topdir["Mode"], o["topMode"]))
    want = dirof(o)
    for f, e in want.items():
        g = got.pop(f, None)
        if g is None:
            bad.append("%s %s is missing" % (e["t"], f))
            continue
        if g["Type"] != ("dir" if e["t"] == "dir" else "file"):
            bad.append("%s is a %s, expected %s" % (f, g["Type"], e["t"]))
            continue
        if e["t"] == "dir":
            continue
        if e["t"] == "arch":
            if g["Arch"] != world.archive:
                bad.append("%s is not a %s archive" % (f, world.archive))
            if world.archive == "zip" and (g["Ents"] or []) != [f[:-4]]:
                bad.append("%s has entries %s" % (f, g["Ents"]))
            if world.archive == "gzip" and g["Ents"]:
                bad.append("%s: %s" % (f, g["Ents"]))
        r = [[x["B"], x["N"]] for x in g["Runs"] or []]
        x = expected_runs(e["body"], lens)
        if r != x:
            bad.append("%s contains %s, expected %s" % (f, r, x))
        if modes and e["t"] == "file" and g["Mode"] != e["mode"]:
            bad.append("%s has mode %o, expected %o" % (f, g["Mode"], e["mode"]))
    for f in got:
        bad.append("unexpected %s %s" % (got[f]["Type"], f))
    return bad


def compare_history(world, h, sc, res, modes):
    if res["Err"]:
        return ["the output cannot be created: " + res["Err"]]
    lens = lens_of(world, h)
    k = 0
    done = []
    for op, st in zip(sc["Ops"], res["Steps"]):
        if st["Panic"]:
            return ["after %s: %s" % (done, st["Panic"])]
        if op.get("Quiet"):
            continue
        o = h["ops"][k]
        done.append("%s %s" % (o["op"], o["arg"]))
        k += 1
        bad = compare_dir(world, o, st["Files"], lens, modes)
        if bad:
            return ["after %s: %s" % (", ".join(done), b) for b in bad]
    return []


def replay_histories(ck, world, hs, modes=False, limit=None):
    binary = build(ck, "clock" if world.kind == "time" else "main")
    if limit and len(hs) > limit:
        hs = random.Random("%d %s" % (ck.seed, world.name)).sample(hs, limit)
    base = ck.dir("r")
    items = [(h, world.script(h, os.path.join(base, "h%d" % i))) for i, h in enumerate(hs)]
    n = 200
    shards = [items[i:i + n] for i in range(0, len(items), n)]

    def one(sh):
        run = run_harness(binary, "roll", [sc for _, sc in sh], timeout=300, env={"TZ": world.tz})
        if run.crashed:
            return [(sh[0], ["the process died: " + run.err[:1500]])]
        rs = result(run)
        return [((h, sc), bad) for (h, sc), r in zip(sh, rs) for bad in [compare_history(world, h, sc, r, modes)] if bad]
    bads = [b for l in parallel(one, shards) for b in l]
    # again, alone
    confirmed = []
    for (h, sc), bad in bads[:5]:
        again = one([(h, sc)])
        if again:
            confirmed.append((sc, bad))
    if bads and not confirmed:
        raise ToolError("a difference did not repeat: %s" % bads[0][1][:2])
    ck.add("traces_validated_against_impl", len(items))
    ck.add("steps_replayed", sum(len(h["ops"]) for h in hs))
    for sc, bad in confirmed[:3]:
        ck.violation("world %s: %s" % (world.name, "; ".join(bad[:3])), {"world": world.name, "script": sc, "differences": bad})
    return items


def check_rworld(ck, world, modes=False, limit=None):
    hs = world.histories(ck)
    if not hs:
        raise ToolError("no histories in world " + world.name)
    ops = {}
    for h in hs:
        for o in h["ops"]:
            ops[o["op"]] = ops.get(o["op"], 0) + 1
    items = replay_histories(ck, world, hs, modes, limit)
    ck.log("world %s: %d behaviours, %d replayed, %s" % (world.name, len(hs), len(items), ops))
    ck.cov.setdefault("worlds", {})[world.name] = {"behaviours": len(hs), "replayed": len(items), "operations": ops}
    ck.sample({"world": world.name, "history": ["%s %s" % (o["op"], o["arg"]) for o in items[0][0]["ops"]]})
