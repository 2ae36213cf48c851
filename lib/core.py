"""Shared machinery of the checks: scratch directories, builds, TLC, verdicts and evidence."""
import atexit, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CORES = os.cpu_count() or 4
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The machinery could not give an answer (never a verdict)."""


class Check:
    """One run of the check of one property."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(self.seed * 1000003 + int(prop[1:]))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        os.chmod(self.tmp, 0o755)
        atexit.register(self.cleanup)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *_: sys.exit(3))
        self.level = "model_checking"
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.ndir = 0
        self.lock = threading.Lock()
        self.buildlock = threading.Lock()

    thorough = property(lambda self: self.tier == "thorough")

    def cleanup(self):
        p = self.tmp
        if p and os.path.basename(p).startswith("verif-") and os.path.isdir(p):
            subprocess.call(["chmod", "-R", "u+rwx", p], stderr=subprocess.DEVNULL)
            shutil.rmtree(p, ignore_errors=True)

    def dir(self, name="d"):
        with self.lock:
            self.ndir += 1
            d = os.path.join(self.tmp, "%s%d" % (name, self.ndir))
        os.makedirs(d)
        return d

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def add(self, key, n=1):
        with self.lock:
            self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    # ------------------------------------------------------------------ verdicts
    def violation(self, what, scenario):
        """A behaviour of the real code that the specification does not allow."""
        self.violations.append({"what": what, "scenario": scenario})

    def finding(self, text):
        self.known.append(text)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violations:
            path = os.path.join(VERIF, "evidence", self.prop + ".replay.json")
            with open(path, "w") as f:
                json.dump(self.violations[:20], f, indent=1, default=str)
            for v in self.violations[:5]:
                print("  " + str(v["what"])[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        brief = {k: v for k, v in self.cov.items() if k != "samples" and not isinstance(v, (list, dict))}
        print("OK property=%s %s" % (self.prop, json.dumps(brief)))
        return 0


# ---------------------------------------------------------------------- building

def goenv(extra=None):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GONOSUMDB="*",
             CGO_ENABLED=e.get("CGO_ENABLED", "1"))
    e.pop("VERIF_TIER", None)
    if extra:
        e.update(extra)
    return e


def _modfile(ck):
    d = os.path.join(ck.tmp, "mod")
    if not os.path.isdir(d):
        os.makedirs(d)
        for f in ("go.mod", "go.sum"):
            if os.path.exists(os.path.join(REPO, f)):
                shutil.copy(os.path.join(REPO, f), d)
    return os.path.join(d, "go.mod")


def _overlay(ck, files):
    """files: path inside REPO -> path inside VERIF/harness"""
    path = os.path.join(ck.tmp, "overlay-%s.json" % hashlib.md5(repr(sorted(files.items())).encode()).hexdigest()[:8])
    with open(path, "w") as f:
        json.dump({"Replace": {os.path.join(REPO, k): os.path.join(VERIF, "harness", v) for k, v in files.items()}}, f)
    return path


def _mainfiles(h):
    fs = {"zz_verif/" + f: "main/" + f for f in os.listdir(h + "/main") if f.endswith(".go")}
    for d in ("deep/er/sites", "sites.v2", "x-y_z~.v1.0"):
        fs["zz_verif/%s/sites.go" % d] = "sites/sites.go"
    return fs


def build(ck, kind="main", race=False):
    """Builds a harness against the current working tree of REPO; returns the binary."""
    with ck.buildlock:
        return _build(ck, kind, race)


def _build(ck, kind, race):
    out = os.path.join(ck.tmp, "bin-%s%s" % (kind, "-race" if race else ""))
    if os.path.exists(out):
        return out
    h = os.path.join(VERIF, "harness")
    base = ["-modfile", _modfile(ck)] + (["-race"] if race else []) + ["-o", out]
    if kind == "main":        # a program using the public and exported names only
        ov = _overlay(ck, _mainfiles(h))
        cmd = ["go", "build", "-overlay", ov] + base + ["github.com/xtfly/log4g/zz_verif"]
    elif kind == "syslog":    # the same, looking for the system log daemon at $VERIF_SYSLOG
        ov = _overlay(ck, _mainfiles(h))
        root = subprocess.check_output(["go", "env", "GOROOT"], cwd=REPO, env=goenv(), text=True).strip()
        src = os.path.join(root, "src/log/syslog/syslog_unix.go")
        with open(src) as f:
            s = f.read()
        t = re.sub(r"logPaths := \[\]string\{[^}]*\}", 'logPaths := []string{os.Getenv("VERIF_SYSLOG")}', s).replace('"net"', '"net"\n\t"os"')
        if t.count("VERIF_SYSLOG") != 1:
            raise ToolError("log/syslog looks for the daemon in another way")
        with open(os.path.join(ck.tmp, "syslog_unix.go"), "w") as f:
            f.write(t)
        with open(ov) as f:
            o = json.load(f)
        o["Replace"][src] = os.path.join(ck.tmp, "syslog_unix.go")
        ov = ov + ".syslog"
        with open(ov, "w") as f:
            json.dump(o, f)
        cmd = ["go", "build", "-overlay", ov] + base + ["github.com/xtfly/log4g/zz_verif"]
    elif kind == "clock":     # the same under a virtual clock
        fs = _mainfiles(h)
        fs.update({"zz_verif/" + f: "clock/" + f for f in os.listdir(h + "/clock") if f.endswith(".go")})
        cmd = ["go", "test", "-c", "-vet=off", "-overlay", _overlay(ck, fs)] + base + ["github.com/xtfly/log4g/zz_verif"]
    elif kind == "internal":  # inside the package, for what configuration cannot reach
        ov = _overlay(ck, {"internal/zz_verif_test.go": "internal/zz_verif_test.go"})
        cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov] + base + ["github.com/xtfly/log4g/internal"]
    p = subprocess.run(cmd, cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise ToolError("cannot build harness %s:\n%s" % (kind, p.stdout[-3000:]))
    return out


# ---------------------------------------------------------------------- TLA+ values

def tla(v):
    """A Python value as a TLA+ expression: list -> sequence, dict -> record, set -> set."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v) if v >= 0 else "(%d)" % v
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=repr)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(repr(v))


class TLCResult:
    def __init__(self):
        self.out = ""
        self.rc = 0
        self.prints = []      # the strings printed with PrintT
        self.generated = self.distinct = 0
        self.ok = False


def run_tlc(ck, name, extends, consts, body="", cfg="", workers=1, timeout=600, args=(), heap="3g", depth_first=False,
            expect_ok=True, keep_out=True, on_print=None):
    """Runs TLC on a module generated in a scratch directory that EXTENDS one of /verif/spec.
    consts: dict of constants (Python values). Model errors are ToolErrors unless expect_ok is False."""
    name = re.sub(r"\W", "_", name)
    d = ck.dir("tlc")
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith(".tla"):
            os.symlink(os.path.join(VERIF, "spec", f), os.path.join(d, f))
    with open(os.path.join(d, name + ".tla"), "w") as f:
        f.write("---- MODULE %s ----\nEXTENDS %s\n" % (name, extends))
        for k, v in consts.items():
            f.write("const_%s == %s\n" % (k, v if isinstance(v, Raw) else tla(v)))
        f.write(body + "\n====\n")
    with open(os.path.join(d, name + ".cfg"), "w") as f:
        if consts:
            f.write("CONSTANTS\n" + "".join("  %s <- const_%s\n" % (k, k) for k in consts))
        f.write(cfg + "\n")
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC"]
    if depth_first:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-Djava.io.tmpdir=" + d, "-cp", TLAJARS, "tlc2.TLC", "-workers", str(workers), "-metadir", d + "/meta",
            "-noGenerateSpecTE", "-config", name + ".cfg"] + list(args) + [name + ".tla"]
    r = TLCResult()
    outp = os.path.join(d, "out.txt")
    with open(outp, "w") as fo:
        try:
            r.rc = subprocess.call(cmd, cwd=d, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s after %ds" % (name, timeout))
    other = []
    with open(outp, errors="replace") as fi:
        for line in fi:
            if line.startswith('"@@'):
                s = json.loads(line)
                (on_print or r.prints.append)(s[2:])
            else:
                other.append(line)
    r.out = "".join(other)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out)
    if m:
        r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    r.ok = r.rc == 0
    if expect_ok and not r.ok:
        raise ToolError("TLC failed on %s (rc %d):\n%s\n%s" % (name, r.rc, "\n".join(l for l in r.out.split("\n") if l.startswith("Error")), r.out[-4000:]))
    ck.add("states", r.distinct)
    ck.add("transitions", max(0, r.generated))
    shutil.rmtree(d, ignore_errors=True)
    return r


class Raw(str):
    """A constant given as TLA+ text."""


# ---------------------------------------------------------------------- state graphs

class Graph:
    """A state graph printed by TLC: states with observations, transitions with actions."""

    def __init__(self):
        self.obs = {}
        self.succ = {}       # state -> list of (action, state)
        self.init = []
        self._id = {}
        self._seen = set()

    def sid(self, key):
        key = hashlib.sha1(json.dumps(key, sort_keys=True).encode()).digest()
        return self._id.setdefault(key, len(self._id))

    def feed(self, s):
        kind, rest = s[0], json.loads(s[1:])
        if kind == "S":
            self.obs[self.sid(rest["s"])] = rest["o"]
        elif kind == "I":
            self.init.append(self.sid(rest["s"]))
        elif kind == "T":
            a, b = self.sid(rest["s"]), self.sid(rest["t"])
            act = json.dumps(rest["a"], sort_keys=True)
            if (a, act, b) not in self._seen:
                self._seen.add((a, act, b))
                self.succ.setdefault(a, []).append((rest["a"], b))

    @property
    def ntrans(self):
        return len(self._seen)

    def walks(self, rng, start, maxlen, limit=None, filt=None):
        """Walks from start that together take every transition (up to limit walks)."""
        todo = {}
        for s, l in self.succ.items():
            todo[s] = [i for i, (a, t) in enumerate(l) if filt is None or filt(a)]
            rng.shuffle(todo[s])
        # shortest way from start
        order, prev = [start], {start: None}
        for s in order:
            for a, t in self.succ.get(s, []):
                if t not in prev:
                    prev[t] = (s, a)
                    order.append(t)
        pending = [s for s in order if todo.get(s)]
        rng.shuffle(pending)
        out = []
        for goal in pending:
            while todo[goal] and (limit is None or len(out) < limit):
                path, s = [], goal
                while prev[s]:
                    path.append((prev[s][1], s))
                    s = prev[s][0]
                path.reverse()
                cur = goal
                while len(path) < maxlen or cur == goal and todo[goal]:
                    if todo.get(cur):
                        i = todo[cur].pop()
                    else:
                        # a step towards unexplored transitions if one is near, else stop
                        nxt = [j for j, (a, t) in enumerate(self.succ.get(cur, [])) if todo.get(t)]
                        if not nxt or len(path) >= maxlen:
                            break
                        i = rng.choice(nxt)
                    a, t = self.succ[cur][i]
                    path.append((a, t))
                    cur = t
                    if len(path) >= maxlen:
                        break
                out.append(path)
        return out


def state_graph(ck, name, extends, consts, invariants=(), properties=(), body="", init="Init", nxt="Next",
                constraint=None, view="vars", timeout=600, heap="6g"):
    """Checks the model exhaustively and returns its state graph."""
    g = Graph()
    cfg = "INIT %s\nNEXT %s\nVIEW %s\nCHECK_DEADLOCK FALSE\n" % (init, nxt, view)
    cfg += "INVARIANT PrintState\nACTION_CONSTRAINT PrintTransition\n"
    for i in invariants:
        cfg += "INVARIANT %s\n" % i
    for p in properties:
        cfg += "PROPERTY %s\n" % p
    if constraint:
        cfg += "CONSTRAINT %s\n" % constraint
    r = run_tlc(ck, name, extends, consts, body=body, cfg=cfg, timeout=timeout, heap=heap, on_print=g.feed)
    g.result = r
    # the first state printed is the initial one
    g.start = 0
    return g


# ---------------------------------------------------------------------- running the real code

CRASH = re.compile(r"^(panic:|fatal error:|unexpected fault address|SIGSEGV|signal: )", re.M)


class Run:
    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    @property
    def crashed(self):
        return self.rc != 0 and CRASH.search(self.err) is not None


def run_harness(binary, mode, script, timeout=60, env=None, cwd=None, prefix=(), args=()):
    """Runs a harness with a JSON script on its standard input; it writes JSON to file descriptor 3."""
    r, w = os.pipe()
    e = goenv(env)
    e["VERIF_MODE"] = mode
    e["VERIF_FD"] = str(w)
    p = subprocess.Popen(list(prefix) + [binary] + list(args), stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                         env=e, cwd=cwd, pass_fds=(w,), start_new_session=True)
    os.close(w)
    out, err = [], []

    def rd():
        with os.fdopen(r, "rb") as f:
            out.append(f.read())

    def rde():
        err.append(p.stderr.read())

    def wr():
        try:
            p.stdin.write(json.dumps(script).encode())
            p.stdin.close()
        except (BrokenPipeError, OSError):
            pass
    ths = [threading.Thread(target=x, daemon=True) for x in (rd, rde, wr)]
    for t in ths:
        t.start()
    to = False
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGQUIT)
            p.wait(5)
        except (subprocess.TimeoutExpired, ProcessLookupError):
            pass
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    for t in ths:
        t.join(10)
    return Run(p.returncode, (out[0] if out else b"").decode(errors="replace"),
               (err[0] if err else b"").decode(errors="replace"), to)


def result(run, what="harness"):
    """The JSON a harness wrote; ToolError if it did not."""
    try:
        return json.loads(run.out)
    except ValueError:
        raise ToolError("%s gave no result (rc %s, timeout %s): %s | %s" % (
            what, run.rc, run.timeout, run.err[-1500:], run.out[-300:]))


def parallel(fn, items, workers=None):
    with ThreadPoolExecutor(workers or CORES) as ex:
        return list(ex.map(fn, items))
