"""C08: the Layout specification against the real formatter."""
from core import *

NAMECH = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")


def pieces(ck, name, alphabet="", maxlen=-1, layouts=()):
    cases, levels = [], {}

    def feed(s):
        r = json.loads(s[1:])
        if s[0] == "L":
            for x in r:
                levels[str(x["lvl"])] = [x["long"], x["short"]]
            return
        cases.append({"L": "".join(r["l"]), "R": r["r"], "P": [{"Kind": p["kind"], "Name": "".join(p["name"]), "Has": p["has"], "Str": "".join(p["str"])} for p in r["p"]]})
    chars = set(alphabet) | {c for l in layouts for c in l}
    consts = {"Alphabet": Raw(tla(set(alphabet)) if alphabet else "{}"), "MaxLen": maxlen, "Layouts": [list(l) for l in layouts],
              "NameChars": Raw(tla(chars & NAMECH) if chars & NAMECH else "{}")}
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Lossless\nINVARIANT AllVerbs\nINVARIANT WellFormed\nINVARIANT PrintPieces\n"
    run_tlc(ck, "MC_" + name, "Layout", consts, body="ASSUME PrintLevels", cfg=cfg, workers=1, timeout=800, heap="6g", on_print=feed)
    ck.log("%s: %d layouts" % (name, len(cases)))
    return cases, levels


EVENTS = [
    dict(Format="", Args=["hello"], Msg="hello", Name="a/b", Lvl=4, Sec=1700000000, Nsec=123456789, Zone=0, Fields=[["a", "x"], ["d", "y%d{"]]),
    dict(Format="%s-%v", Args=["p", "q"], Msg="p-q", Name="root", Lvl=3, Sec=1700000000, Nsec=124000001, Zone=0, Fields=[["a", 5]]),
    dict(Format="", Args=["x}", 3, "%{msg}"], Msg="", Name="%{a}", Lvl=7, Sec=1700000000, Nsec=999999999, Zone=330, Fields=[["ad", True], ["a", ""]]),
    dict(Format="no args \\", Args=[], Msg="no args \\", Name="", Lvl=2, Sec=1700000001, Nsec=0, Zone=-570, Fields=[]),
    dict(Format="%%%v", Args=[7], Msg="%7", Name="é.ü", Lvl=8, Sec=951782400, Nsec=5, Zone=60, Fields=[["d", None], ["a", "stringer:z"]]),
    dict(Format="", Args=[], Msg="", Name="n", Lvl=0, Sec=-62135596800, Nsec=0, Zone=0, Fields=[["a", 1.5], ["aa", "A"], ["k1", "v"]]),
    dict(Format="line\nbreak", Args=[], Msg="line\nbreak", Name="x", Lvl=9, Sec=4102444799, Nsec=999000000, Zone=0, Fields=[["a", "s"], ["d", [1, "t"]]]),
    dict(Format="", Args=["a", "b"], Msg="ab", Name="x", Lvl=5, Sec=1700000000, Nsec=123456790, Zone=0, Fields=[["a", "t"]]),
    dict(Format="", Args=[None], Msg="<nil>", Name="x", Lvl=6, Sec=1699999999, Nsec=123456789, Zone=0, Fields=[["a", "u"]]),
    dict(Format="%s", Args=["" + "long" * 300], Msg="long" * 300, Name="x", Lvl=1, Sec=1700000000, Nsec=123456789, Zone=0, Fields=[["a", "u"]]),
]
EVENTS[2]["Args"] = ["x}", "%{msg}"]
EVENTS[2]["Msg"] = "x}%{msg}"

TOKENS = ["%{msg}", "%{time}", "%{time:15:04:05.000}", "%{time:2006-01-02T15:04:05.999Z-07:00}", "%{time:Mon Jan _2 {x}}", "%{level}", "%{level:-8s}", "%{level:.1s}",
          "%{lvl}", "%{lvl:5s}", "%{lvl:q}", "%{module}", "%{module:20s}", "%{module:-4s}", "%{pid}", "%{pid:06d}", "%{pid:x}", "%{program}", "%{program:.3s}", "%{a}", "%{a:v}", "%{a:+v}",
          "%{a:5s}", "%{d}", "%{d:T}", "%{ad}", "%{k1}", "%{nosuch}", "%{Msg}", "%{msg1}", "%{msg:10.3s}|", "%{msg:q}", "%{msg:s%}", "%{msg:s\\}}", "%{time:\\}15}", "%{time:x\\\\}", "%{a:\n}", "%{a:x\ny}",
          "%{}", "%{:s}", "%{msg:}", "%{msg", "%{ms g}", "%{msg }", "{msg}", "%%{msg}", "%{%{msg}}", "%msg", "%", "{", "}", "\\", "\n", "\t", " >> ", "é", "%d", "%!", "%{_extend}", "%{a_b}",
          "%{level:s}%{lvl:s}", "[", "]", "%{msg:[1]s}", "%{pid:%}", "%{time:}", "%{time: }", "%{a:*d}", "%{a:d:d}", "%{line_no}"]


def check(ck, name, cases, levels, per, conc=0, race=False):
    binary = build(ck, "main", race)
    n = max(1, min(3000, len(cases) // 8 + 1))
    shards = [cases[i:i + n] for i in range(0, len(cases), n)]

    def one(sh):
        run = run_harness(binary, "layout", {"Cases": sh, "Events": EVENTS, "Levels": levels, "Per": per, "Conc": conc}, timeout=200, env={"GORACE": "halt_on_error=1 exitcode=66"})
        if run.crashed or "DATA RACE" in run.err:
            return {"Bad": ["the process died: " + run.err[:2000]], "N": 0}
        return result(run, "layout harness")
    total = 0
    for r in parallel(one, shards):
        total += r["N"]
        for b in r["Bad"][:3]:
            if len(ck.violations) < 4:
                ck.violation("%s: %s" % (name, b), {"what": b})
    ck.log("%s: %d layouts, %d renderings compared" % (name, len(cases), total))
    ck.add("traces_validated_against_impl", len(cases))
    ck.add("renderings", total)
    ck.cov.setdefault("layouts", {})[name] = {"layouts": len(cases), "renderings": total}
    ck.sample({"layout": cases[len(cases) // 3]["L"], "pieces": cases[len(cases) // 3]["P"]})


def c08(ck):
    t = ck.thorough
    cs, lv = pieces(ck, "chars", "%{}:\\ad", 7 if t else 6)
    check(ck, "chars", cs, lv, 3)
    cs, lv = pieces(ck, "lines", "%{}:\na", 6 if t else 5)
    check(ck, "lines", cs, lv, 2)
    # every two tokens next to each other, and longer layouts at random
    ls = TOKENS + [a + b for a in TOKENS for b in TOKENS]
    if not t:
        ls = TOKENS + ck.rng.sample(ls[len(TOKENS):], 2500)
    ls += ["".join(ck.rng.choice(TOKENS) for _ in range(ck.rng.randint(3, 9))) for _ in range(6000 if t else 700)]
    # every verb start with every short continuation
    ls += ["%{" + a + b + c + d for a in ("a", "time", "msg") for b in (":", "", " ") for c in ("", "s", "}", "\\", ":", "%{a}") for d in ("}", "}}", "", "\\}", "s}", "\n}")]
    cs, lv = pieces(ck, "tokens", layouts=sorted(set(ls)))
    check(ck, "tokens", cs, lv, 12)
    verbs = [c for c in cs if not c["R"]]
    check(ck, "concurrent", ck.rng.sample(verbs, 1500 if t else 150), lv, 4, conc=200 if t else 60)
    check(ck, "race", ck.rng.sample(verbs, 400 if t else 50), lv, 4, conc=60 if t else 30, race=True)
