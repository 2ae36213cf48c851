"""Which machinery decides which property."""
import archives
import asyncout
import capture
import caller
import conc
import creators, neighbours
import docs
import known
import layout
import options
import logtree
import rollworlds
import syncout
import syslogd


def tree(worlds, aspects=logtree.ALL):
    def run(ck):
        for w in worlds(ck) + (logtree.worlds_mixed(ck) if ck.thorough else []):
            logtree.check_world(ck, w, aspects)
    return run


def also(run, *more):
    def both(ck):
        run(ck)
        for m in more:
            m(ck)
    return both


CHECKS = {
    "C01": tree(logtree.worlds_levels),
    "C02": tree(logtree.worlds_routes),
    "C03": also(tree(logtree.worlds_hier), conc.c03),
    "C04": also(tree(logtree.worlds_config), conc.c04, known.redefined),
    "C05": also(tree(logtree.worlds_bad), docs.c05),
    "C06": tree(logtree.worlds_fields),
    "C07": caller.c07,
    "C08": layout.c08,
    "C09": asyncout.c09, "C10": asyncout.c10, "C11": asyncout.c11,
    "C12": syncout.c12,
    "C13": also(rollworlds.c13, neighbours.c13, known.numbers), "C14": also(rollworlds.c14, known.recurring, neighbours.c14), "C15": also(rollworlds.c15, neighbours.c13),
    "C16": also(rollworlds.c16, neighbours.c13), "C17": also(rollworlds.c17, neighbours.c17),
    "C18": options.c18,
    "C19": archives.c19,
    "C20": also(rollworlds.c20, neighbours.c13), "C24": rollworlds.c24,
    "C21": also(tree(logtree.worlds_instances), conc.c21),
    "C22": syslogd.c22,
    "C23": conc.c23,
    "C25": capture.c25,
    "C26": creators.c26,
    "C27": neighbours.c27,
    "C00": tree(logtree.worlds_mixed),
}
