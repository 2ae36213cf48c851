"""Replays of the defects that are known and not repaired: each prints KNOWN-FINDING while it is there,
nothing once it is gone, and raises an alarm if the history ends in any other way."""
from core import *


def listed(prop, kid):
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        return any(l.startswith("known: property=%s id=%s " % (prop, kid)) for l in f)


def judge(ck, kid, cases, what):
    """cases: [(history, observation, the observation if the defect is there, the one the property demands)]"""
    seen = False
    for hist, got, defect, right in cases:
        if got == right:
            continue
        if got == defect and listed(ck.prop, kid):
            seen = True
        else:
            ck.violation("%s: observed %s, expected %s" % (hist, got, right), {"history": hist, "observed": got})
    if seen:
        ck.finding("id=%s %s" % (kid, what))
    ck.add("known_histories_replayed", len(cases))


def redefined(ck):
    """C04: a configuration that defines an output or format anew under a name already in use"""
    binary = build(ck)
    cases = []
    for what, defect, right in (
            ("builtin", {"old": "", "new": "", "console": "first;second;"}, {"old": "", "new": "[second]\n", "console": "first;"}),
            ("output", {"old": "[first]\n[second]\n", "new": ""}, {"old": "[first]\n", "new": "[second]\n"}),
            ("format", {"old": "", "new": "<first>\n<second>\n"}, {"old": "", "new": "<first>\n[second]\n"})):
        d = ck.dir("k")
        got = result(run_harness(binary, "redefine", {"Dir": d, "What": what}, cwd=d))
        cases.append(("redefinition of %s" % what, got, defect, right))
    judge(ck, "redefined-name", cases, "an output or format that a later configuration defines anew under the same name keeps its old definition")


def recurring(ck):
    """C14: the label of a period occurs again"""
    binary = build(ck, "clock")
    cases = []
    # the night of 29 October 2000 in New York: 01:30 comes twice
    sun = 86400 * 302 + 3600 * 5 + 1800       # 05:30 UTC, 01:30 EDT
    for name, tz, pattern, start, ticks, old in (
            ("an hour that comes twice when summer time ends", "America/New_York", "2006-01-02-1504", sun, (60, 3540, 60), "2000-10-29-0130"),
            ("a pattern without the date", "UTC", "15", 3600 * 10, (3600, 82800, 3600), "10")):
        d = ck.dir("k")
        ops = []
        for i, t in enumerate((0,) + ticks):
            if t:
                ops.append({"Op": "tick", "Secs": t, "Quiet": True})
            ops.append({"Op": "write", "Byte": 65 + i, "Len": 3})
        sc = [{"Dir": d + "/h", "Start": start, "Mask": 0o22, "Init": [], "Ops": ops, "Cwd": "",
               "Cfg": {"name": "o", "type": "time_rolling_file", "format": "f", "backups": "20", "file": "@/app.log", "pattern": pattern}}]
        res = result(run_harness(binary, "roll", sc, env={"TZ": tz}))[0]
        fs = res["Steps"][-1]["Files"]
        held = sorted("".join(chr(r["B"]) for r in f["Runs"] or []) for f in fs)
        names = sorted(f["Name"] for f in fs)
        got = ["".join(sorted("".join(held))), "app.log." + old in names]
        cases.append((name, got, ["BCD", True], ["ABCD", True]))
    judge(ck, "label-recurs", cases, "a backup is overwritten when the label of its period occurs again, as at the end of summer time")


def numbers(ck):
    """C13: there is no number after the highest existing one"""
    binary = build(ck, "clock")
    cases = []
    top = 2 ** 63 - 1
    for n, defect in ((top, "$DE"), (top - 1, "$ADE")):
        d = ck.dir("k")
        ops = [{"Op": "write", "Byte": 65 + i, "Len": 3} for i in range(5)]
        sc = [{"Dir": d + "/h", "Start": 0, "Mask": 0o22, "Ops": ops, "Cwd": "",
               "Init": [{"Op": "put", "Path": "app.log.%d" % n, "Runs": [{"B": 36, "N": 3}]}],
               "Cfg": {"name": "o", "type": "size_rolling_file", "format": "f", "backups": "20", "size": "2", "file": "@/app.log"}}]
        res = result(run_harness(binary, "roll", sc, env={"TZ": "UTC"}))[0]
        held = sorted("".join(chr(r["B"]) for r in f["Runs"] or []) for f in res["Steps"][-1]["Files"])
        cases.append(("a backup with number %d" % n, "".join(held), defect, "$ABCDE"))
    judge(ck, "last-number", cases, "backups are overwritten after one with the highest possible number, 2^63-1")
