"""C05: the Documents specification against the real manager."""
import base64
from core import *

LEVELS = ["", "all", "trace", "debug", "info", "warn", "error", "critical", "off"]
POOLS = {"f": [("f1", "f2", "f3"), ("x", "X", "x "), ("1", "01", "1.0"), ("a b", "a\tb", "ab"), ("\u00e9", "e\u0301", "e"), ("text", "formats", "name"), ("f", "ff", "fff"), ("", "f", " "), ("true", "~", "null"), ("f1", "f2", "")],
         "o": [("o1", "o2", "o3"), ("out", "Out", "OUT"), ("a", "a/b", "a.b"), ("console", "outputs", "format"), ("10", "1e1", "0x0a"), ("- x", "x: y", "#x"), ("o", "o\n", "o "), ("stdout", "stderr", "root")],
         "l": [("root", "a", "b"), ("root", "svc/api", "svc"), ("root", "x.y", "x"), ("root", "root2", "roo"), ("root", "日本", "日"), ("root", "with space", "with"), ("root", "a", "A"), ("root", "a/b", "a.b")]}
SAFE = re.compile("^[a-z][a-z0-9/]*$")
WORDS = {"true", "false", "null", "yes", "no", "on", "off", "y", "n"}


def rename(d, m):
    e = lambda k, s: m[k][int(s[1:]) - 1]
    return {"formats": [e("f", f) for f in d["formats"]],
            "outputs": [(e("o", o["name"]), e("f", o["format"])) for o in d["outputs"]],
            "loggers": [(e("l", l["name"]), l["level"], [e("o", o) for o in l["outs"]]) for l in d["loggers"]]}


def plainmaps(d, r):
    """The document as lists of maps, with the types and options that the specification leaves open."""
    def without(m):   # a name that is empty can be left out
        return {k: v for k, v in m.items() if v != "" or r.random() < 0.5}
    fs = [without({"name": f, "type": "text", "layout": "%{msg}\n"}) for f in d["formats"]]
    os = [without({"name": n, "type": "rec", "format": f}) for n, f in d["outputs"]]
    for m in fs + os:
        if r.random() < 0.1:
            m["x" + str(r.randrange(10))] = "unknown"
    ls = [{"name": n, "level": v, "outputs": o} for n, v, o in d["loggers"]]
    return {"formats": fs, "outputs": os, "loggers": ls}


def shuffled(m, r):
    ks = list(m)
    r.shuffle(ks)
    return {k: m[k] for k in ks}


def tojson(p, r):
    q = {k: [shuffled(m, r) for m in v] for k, v in p.items() if v or r.random() < 0.5}
    for l in q.get("loggers", []):
        if not l["outputs"]:
            c = r.randrange(3)
            if c == 0:
                del l["outputs"]
            elif c == 1:
                l["outputs"] = None
    if r.random() < 0.1:
        q["version"] = r.choice([1, "x", [1, {}], None])
    t = json.dumps(shuffled(q, r), ensure_ascii=r.random() < 0.5, indent=r.choice([None, 1, 4]), separators=r.choice([None, (",", ":"), (" , ", " : ")]))
    return r.choice(["", " ", "\n"]) + t + r.choice(["", "\n", " \r\n"])


def toyaml(p, r):
    def q(s):
        c = r.randrange(3)
        if c == 0 and SAFE.fullmatch(s) and s not in WORDS:
            return s
        if c == 1 and s.isprintable():
            return "'" + s.replace("'", "''") + "'"
        return json.dumps(s)
    out = []
    note = lambda: out.append(r.choice(["# a comment", "", "   # x: y"])) if r.random() < 0.1 else None
    if r.random() < 0.2:
        out.append("---")
    if r.random() < 0.1:
        out.append("version: 1")
    ks = list(p)
    r.shuffle(ks)
    for k in ks:
        if not p[k]:
            c = r.randrange(3)
            if c:
                out.append(k + (":" if c == 1 else ": []"))
            continue
        ind = " " * r.choice([0, 1, 2, 4])
        out.append(k + ":" + r.choice(["", "", "   # things"]))
        for m in p[k]:
            note()
            items = list(shuffled(m, r).items())
            if not items or r.random() < 0.2:
                out.append(ind + "- {" + ", ".join("%s: %s" % (a, "[" + ", ".join(q(x) for x in b) + "]" if isinstance(b, list) else q(b)) for a, b in items) + "}")
                continue
            for i, (a, b) in enumerate(items):
                lead = ind + ("- " if i == 0 else "  ")
                if not isinstance(b, list):
                    out.append(lead + a + ": " + q(b))
                elif b and r.random() < 0.5:
                    out.append(lead + a + ":")
                    out += [ind + "  - " + q(x) for x in b]
                else:
                    out.append(lead + a + ": [" + ", ".join(q(x) for x in b) + "]")
    if not out or r.random() < 0.1:
        out.append("# end")
    return "\n".join(out) + r.choice(["\n", "\n", ""])


WRONG = {"formats": ['"x"', "5", "{}", "[[]]", '["x"]', '[{"name": {"a": "b"}}]', '[{"name": ["a"]}]'],
         "outputs": ['"x"', "5", '{"a": "b"}', "[[]]", '["x"]', '[{"name": {}}]'],
         "loggers": ['"x"', "5", '{"name": "root"}', "[[]]", '["x"]', '[{"name": {}}]', '[{"name": "q", "outputs": "x"}]', '[{"name": "q", "outputs": [[]]}]', '[{"name": "q", "outputs": {"a": "b"}}]']}
WRONG = {k: [w for w in v if w != "{}"] for k, v in WRONG.items()}


def broken_json(t, p, r):
    c = r.randrange(5)
    s = t.strip()
    if c == 0:
        return s[:r.randrange(len(s))]
    if c == 1:
        return s + r.choice(["}", "x", "{}", ",", "]", ' "a"', "//"])
    if c == 2:
        return r.choice(["[]", '"x"', "5", "true", "", "{", "formats:\n", "'x'", "[" + s + "]"])
    if c == 3:
        k = r.choice(sorted(WRONG))
        q = {a: b for a, b in p.items() if a != k}
        parts = ['"%s": %s' % (a, json.dumps(b)) for a, b in q.items()]
        parts.insert(r.randrange(len(parts) + 1), '"%s": %s' % (k, r.choice(WRONG[k] + (['[{"name": 5}]'] if k == "formats" else []))))
        return "{" + ", ".join(parts) + "}"
    i = len(s) - 1
    return s[:i] + r.choice([",", "'", "\\", ":"]) + s[i:]


def broken_yaml(p, r):
    c = r.randrange(4)
    t = toyaml(p, r).rstrip("\n") + "\n"
    if c == 0:
        k = r.choice(sorted(WRONG))
        q = {a: b for a, b in p.items() if a != k}
        parts = ["%s: %s" % (a, json.dumps(b)) for a, b in q.items()]
        parts.insert(r.randrange(len(parts) + 1), "%s: %s" % (k, r.choice(WRONG[k])))
        return "\n".join(parts) + "\n"
    if c == 1:
        return t + r.choice(["zz: [", "zz: {a: b", 'zz: "unclosed', "zz: 'unclosed", "zz: a: b", "zz: @x", "zz: *nowhere", "zz\n  yy: x"]) + "\n"
    if c == 2:
        return r.choice(["- a\n", "hello\n", "5\n", "[]\n", '"x"\n', "- formats: []\n", "[[\n", "{\n", "a: [b\n"])
    return r.choice(["zz: [\n", "zz: a: b\n", "}\n", "]\n"]) + t.replace("---\n", "")


def case(s, r):
    return r.choice([s, s, s.upper(), s.capitalize(), "".join(c.upper() if r.random() < 0.5 else c for c in s)])


UNKNOWN = ["", "xml", "toml", "jso", "jsonn", "yam", "yamlx", "json5", "ini", "conf", "y", "txt", "yaml.bak", "jsonyaml", "yamlyml", "js"]


def step(doc, m, r, how=None):
    """One load: the step for the harness, whether the document arrives, and what it is."""
    d = rename(doc["d"], m)
    p = plainmaps(d, r)
    via = r.choice(["struct", "bytes", "bytes", "file", "file"])
    defect = how or ("none" if via == "struct" or r.random() < 0.7 else r.choice(["malformed", "malformed", "unknown kind"] + (["unreadable"] if via == "file" else [])))
    if via == "struct":
        cfg = p
        return {"Via": via, "Cfg": cfg}, defect
    kind = r.choice(["yaml", "yml", "json"])
    if kind == "json":
        text = tojson(p, r)
        if defect == "malformed":
            text = broken_json(text, p, r) if r.random() < 0.9 or not any(p.values()) else toyaml(p, r)
    else:
        text = broken_yaml(p, r) if defect == "malformed" else toyaml(p, r) if r.random() < 0.8 else tojson(p, r).strip()
    if r.random() < 0.01 and defect != "malformed":
        text = ("#" + "x" * 70 + "\n") * 3000 + text if kind != "json" else " " * 300000 + text
    ext = case(kind, r)
    s = {"Via": via, "Text": base64.b64encode(text.encode()).decode()}
    if via == "bytes":
        s["Ext"] = r.choice(UNKNOWN) if defect == "unknown kind" else ext
        return s, defect
    where = r.choice(["", "", "d/", "d.txt/", "json.d/", "x.yaml/", "a b/é/"])
    if defect == "unknown kind":
        s["File"] = where + r.choice(["c", "c.", "c.txt", "yaml", "json", "c.yaml.bak", "c.yaml~", "c.yamlx", "c.jsonl", "c.yaml.gz", "cyaml", "yml.conf"])
    else:
        s["File"] = where + r.choice(["c", "C", "log 4g", "c.b", "c.txt", "c.json", "c.yaml", "日本", "-c"]) + "." + ext
        if defect == "unreadable":
            s["Via"] = r.choice(["dir", "none", "loop"])
            if s["Via"] == "loop" and where:
                s["File"] = s["File"][len(where):]
        elif not where and r.random() < 0.2:
            s["Via"] = r.choice(["link", "fifo"])
    return s, defect


def expected(v, m):
    """What the specification tells about the loggers, with the names of this run."""
    out = {}
    for sym, e in v.items():
        out[m["l"][int(sym[1:]) - 1]] = (e["known"], LEVELS.index(e["level"].lower()) if e["known"] else 0, [m["o"][int(o[1:]) - 1] for o in e["outs"]])
    return out


def universe(ck, name, fm, om, lm, outs, logs, body=""):
    docs = []
    consts = {"FormatNames": {"f1", "f2", "f3"}, "OutputDefs": Raw("{" + ", ".join('[name |-> "%s", format |-> "%s"]' % o for o in outs) + "}"),
              "LoggerDefs": Raw("{" + ", ".join('[name |-> "%s", level |-> "%s", outs |-> <<%s>>]' % (n, l, ", ".join('"%s"' % x for x in o)) for n, l, o in logs) + "}"),
              "MaxFormats": fm, "MaxOutputs": om, "MaxLoggers": lm, "Watched": {"l1", "l2", "l3"}, "MaxLoads": 0, "Given": []}
    run_tlc(ck, "MC_" + name, "Documents", consts, body="ASSUME Order /\\ Enough /\\ PrintDocs" + body, cfg="INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", timeout=800, heap="8g",
            on_print=lambda s: docs.append(json.loads(s[1:])))
    return docs


MANY = 24


def large(ck, count):
    """Documents with many definitions, half of them with one name too many or one that is not defined, anywhere; the specification tells which are valid."""
    r, given = random.Random(ck.seed * 31 + 5), []
    for i in range(count):
        pick = lambda k, n: [k + str(j) for j in r.sample(range(1, MANY + 1), n)]
        fs, os, ls = pick("f", r.randrange(1, MANY)), pick("o", r.randrange(1, MANY)), pick("l", r.randrange(1, MANY))
        outs = [{"name": o, "format": r.choice(fs)} for o in os]
        logs = [{"name": l, "level": r.choice(LEVELS[1:]), "outs": r.sample(os, r.choice([0, 1, 1, 2, min(9, len(os))]) if len(os) > 1 else 1)} for l in ls]
        what = r.choice(["", "", "", "", "", "f", "o", "l", "of", "lo"])
        if what in ("f", "o", "l"):
            at = {"f": fs, "o": outs, "l": logs}[what]
            x = r.choice(at)
            if what == "o" and r.random() < 0.5:
                x = dict(x, format=r.choice(fs))
            at.insert(r.randrange(len(at) + 1), x)
        elif what == "of":
            r.choice(outs)["format"] = r.choice(pick("f", 3))
        elif what == "lo":
            o = r.choice(logs)["outs"]
            o.insert(r.randrange(len(o) + 1), r.choice(pick("o", 3)))
        given.append({"formats": fs, "outputs": outs, "loggers": logs})
    docs = []
    consts = {"FormatNames": set(), "OutputDefs": set(), "LoggerDefs": set(), "MaxFormats": 0, "MaxOutputs": 0, "MaxLoggers": 0,
              "Watched": {"l%d" % (i + 1) for i in range(MANY)}, "MaxLoads": 0, "Given": given}
    run_tlc(ck, "MC_large", "Documents", consts, body="ASSUME Order2 /\\ PrintGiven", cfg="INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", timeout=800, heap="8g",
            on_print=lambda s: docs.append(json.loads(s[1:])))
    return docs


OUTS = [("o1", "f1"), ("o1", "f2"), ("o2", "f1"), ("o2", "f3"), ("o3", "f2")]
LOGS = [("l1", "info", []), ("l1", "ERROR", ["o1"]), ("l2", "debug", ["o1", "o2"]), ("l2", "warn", ["o2"]), ("l3", "Info", ["o3"]), ("l3", "critical", ["o2", "o1", "o3"])]


def design(ck):
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT WellFormed\nPROPERTY AllOrNothing\nPROPERTY Unchanged\n"
    consts = {"FormatNames": {"f1"}, "OutputDefs": Raw('{[name |-> "o1", format |-> "f1"], [name |-> "o2", format |-> "f2"]}'),
              "LoggerDefs": Raw('{[name |-> "l1", level |-> "info", outs |-> <<"o1">>], [name |-> "l2", level |-> "info", outs |-> <<"o2">>]}'),
              "MaxFormats": 1, "MaxOutputs": 2, "MaxLoggers": 2, "Watched": {"l1", "l2"}, "MaxLoads": 3, "Given": []}
    r = run_tlc(ck, "MC_loads", "Documents", consts, cfg=cfg, workers=CORES, timeout=300)
    ck.log("loading documents: %d states" % r.distinct)


def check_docs(ck, name, docs, chains, length, wide=False):
    good = [d for d in docs if d["ok"]]
    binary = build(ck, "main")
    ck.log("%s: %d documents in the specification, %d valid" % (name, len(docs), len(good)))
    rs = random.Random(ck.seed * 7 + len(docs))
    order = docs[:]
    rs.shuffle(order)

    def chain(i):
        r = random.Random("%d %d %s" % (ck.seed, i, name))
        m = {k: list(r.choice(v)) for k, v in POOLS.items()}
        for k in m:     # names beyond the three
            m[k] += r.sample([n + s for n in sorted(set(m[k]) | {k}) for s in ["-%d" % j for j in range(30)]], MANY) if wide else []
        watched = list(m["l"]) + ["nowhere"]
        mine = order[i::chains][:length]
        steps, want, cur = [], [], None
        for d in [r.choice([g for g in good if g["d"]["loggers"]])] + mine:
            todo = [d]
            if r.random() < 0.3:
                todo.append(r.choice(good))
            for x in todo:
                s, defect = step(x, m, r, "none" if not steps else None)
                steps.append(s)
                ok = x["ok"] and defect == "none"
                if ok:
                    cur = x
                want.append((ok, cur, defect, x))
        sc = {"Steps": steps, "Watched": watched, "Loggers": list(m["l"]), "Cwd": r.random() < 0.3}
        run = run_harness(binary, "docs", sc, timeout=300, cwd="/tmp")
        if run.crashed:
            return [("the process died: " + run.err[:1500], {"chain": i})], 0
        bad, before = [], None
        for k, (s, (ok, cur, defect, x), o) in enumerate(zip(steps, want, result(run, "docs harness"))):
            why = []
            if o["Panic"]:
                why.append("panic: " + o["Panic"])
            elif o["Rejected"] == ok:
                why.append("rejected" if ok else "accepted though it is %s" % (defect if defect != "none" else "invalid"))
            else:
                exp = expected(cur["v"], m)
                for n, v in zip(watched, o["Views"]):
                    known, lvl, outs = exp.get(n, (False, 0, []))
                    got = (not v["Err"], v["Level"] if known else 0, v["Outs"] or [])
                    if got != (known, lvl, outs):
                        why.append("logger %r is told to have %s, expected %s" % (n, got, (known, lvl, outs)))
                    if known and outs and n in m["l"]:
                        g = o["Got"][list(m["l"]).index(n)]
                        e = str(lvl) + "".join("|" + (",".join(sorted(outs)) if l >= lvl else "") for l in range(2, 8))
                        if g != e:
                            why.append("messages of %r go to %s, expected %s" % (n, g, e))
                if not ok and before is not None and before != o["Got"]:
                    why.append("a rejected document changed where messages go: %s, before %s" % (o["Got"], before))
            before = o["Got"]
            if why:
                text = base64.b64decode(s["Text"]).decode() if "Text" in s else json.dumps(s.get("Cfg"), ensure_ascii=False)
                bad.append(("load %d (%s %s): %s; document: %s" % (k + 1, s["Via"], s.get("Ext", s.get("File", "")), "; ".join(why[:2]), text[:600]), {"step": s, "names": m, "document": x["d"], "why": why}))
                break
        return bad, len(steps)
    n = 0
    for bad, k in parallel(chain, range(chains)):
        n += k
        for what, sc in bad:
            if len(ck.violations) < 4:
                ck.violation(name + ": " + what, sc)
    ck.add("traces_validated_against_impl", chains)
    ck.add("documents_loaded", n)
    ck.log("%s: %d sequences of documents, %d loads compared" % (name, chains, n))
    ck.cov.setdefault("worlds", {})["documents " + name] = {"documents": len(docs), "valid": len(good), "loads": n}


def c05(ck):
    t = ck.thorough
    design(ck)
    docs = universe(ck, "docs", 3, 2, 2, OUTS, LOGS)
    check_docs(ck, "lists of two", docs, 96 if t else 48, 10 ** 6 if t else 1000)
    check_docs(ck, "long lists", large(ck, 4000 if t else 800), 48 if t else 24, 10 ** 6, wide=True)
    if t:
        check_docs(ck, "lists of three", universe(ck, "docs3", 2, 3, 3, OUTS[:4], LOGS[:2] + LOGS[2:4]), 160, 3000)
