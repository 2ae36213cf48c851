"""C25: the Capture specification against records of the real library."""
from core import *

REF = ["slice", "strings", "bytes", "map", "pointer", "stringer", "errslice", "formatter", "gostring", "deep", "structref"]
VAL = ["int", "string", "array", "struct", "error"]
# format (None: a method without one), number of arguments
FORMS = [(None, 0), (None, 1), (None, 2), (None, 3), ("", 0), ("", 1), ("", 2), ("plain", 0), ("100%", 0), ("%d %%", 0), ("%v %s", 0), ("%v", 1), ("a %v b", 1), ("%+v|", 1), ("%s", 1), ("%d", 1),
         ("%x", 1), ("%T", 1), ("%10v]", 1), ("%v-%v", 2), ("%[2]v %[1]v", 2), ("%v", 2), ("%v %v", 1), ("none", 1), ("none", 2), ("%!", 1), ("%%%v%%", 1), ("%v %v %v", 3), ("%", 1), ("%z", 1), ("é%v", 1)]


def design(ck):
    consts = {"Kinds": ["ref", "val", "ref"], "MaxVal": 1, "Shapes": [[1], [2, 3], []], "Ways": [[], [1, 2]], "MaxLog": 3 if ck.thorough else 2, "Late": False}
    cfg = "INIT Init\nNEXT Next\nVIEW vars\nCHECK_DEADLOCK FALSE\nINVARIANT Faithful\n"
    r = run_tlc(ck, "MC_design", "Capture", consts, cfg=cfg, workers=CORES, timeout=600)
    ck.log("design: %d states" % r.distinct)
    consts["Late"] = True
    r = run_tlc(ck, "MC_late", "Capture", consts, cfg=cfg, workers=1, timeout=600, expect_ok=False)
    if "Invariant Faithful is violated" not in r.out:
        raise ToolError("the statement does not exclude rendering late:\n" + r.out[-2000:])


def check_world(ck, name, cells, shapes, ways, depth, limit, salt=0, race=False, nested=False):
    consts = {"Kinds": ["ref" if c in REF else "val" for c in cells], "MaxVal": 1, "Shapes": [c for _, _, c in shapes], "Ways": ways, "MaxLog": 1000000, "Late": False}
    g = Graph()
    cfg = "INIT Init\nNEXT CallsOnly\nVIEW Now\nCHECK_DEADLOCK FALSE\nINVARIANT PrintState\nACTION_CONSTRAINT PrintTransition\n"
    run_tlc(ck, "MC_" + name, "Capture", consts, cfg=cfg, on_print=g.feed, timeout=600)
    binary = build(ck, "main", race)
    paths = g.walks(ck.rng, 0, depth, limit)

    def one(k):
        d = ck.dir("w")
        sc = {"Dir": d, "Cells": cells, "Shapes": [{"Format": f or "", "F": f is not None, "Cells": c} for f, _, c in shapes], "Ways": ways, "Salt": salt + k,
              "Gate": k % 4 != 3, "Nested": nested, "Steps": [{"Op": a["op"], "N": a["n"], "S": a["s"], "Rec": a["rec"]} for a, _ in paths[k]]}
        run = run_harness(binary, "capture", sc, timeout=120, cwd=d, env={"GORACE": "halt_on_error=1 exitcode=66"})
        shutil.rmtree(d, ignore_errors=True)
        if run.crashed or "DATA RACE" in run.err:
            return ["the process died: " + run.err[:2500]], 0
        r = result(run, "capture harness")
        return r["Bad"], r.get("N", 0)
    recs = 0
    for k, (bad, n) in enumerate(parallel(one, range(len(paths)))):
        recs += n
        if bad and len(ck.violations) < 3:
            ck.violation("%s (cells %s): %s" % (name, ", ".join(cells), "; ".join(bad[:3])), {"walk": [a for a, _ in paths[k]], "shapes": shapes, "differences": bad})
    ck.add("traces_validated_against_impl", len(paths))
    ck.add("records_compared", recs)
    ck.log("%s: %d states, %d transitions, %d walks, %d records" % (name, len(g.obs), g.ntrans, len(paths), recs))
    ck.cov.setdefault("worlds", {})[name] = {"states": len(g.obs), "transitions": g.ntrans, "walks": len(paths), "records": recs, "cells": cells, "race_detector": race}
    if paths:
        ck.sample({"world": name, "walk": [(a["op"], a["n"], shapes[a["s"] - 1][0] if a["s"] else "") for a, _ in paths[0]][:12]})


def shapes_for(rng, ncells, forms):
    out = []
    for f, n in forms:
        out.append((f, n, [rng.randint(1, ncells) for _ in range(n)]))
    return out


def c25(ck):
    t = ck.thorough
    design(ck)
    rng = ck.rng
    # every kind of cell occurs, in groups of three
    kinds = REF + VAL
    rng.shuffle(kinds)
    while len(kinds) % 3:
        kinds.append(rng.choice(REF))
    groups = [kinds[i:i + 3] for i in range(0, len(kinds), 3)]
    for r in range(4 if t else 1):
        for n, cells in enumerate(groups):
            check_world(ck, "kinds%d" % (n + len(groups) * r), cells, shapes_for(rng, 3, FORMS), [[], [1, 2, 3], [3, 1]], 60, 900 if t else 60, salt=n)
    check_world(ck, "race", ["pointer", "slice", "stringer"], shapes_for(rng, 3, FORMS), [[], [1, 2], [3]], 40, 100 if t else 16, race=True)
    check_world(ck, "nested", ["slice", "int", "stringer"], [("%v|%v", 1, [1]), ("x %v", 0, []), (None, 0, []), ("%v %v %s", 2, [2, 3])], [[], [2, 3]], 20, 100 if t else 24, nested=True)
