"""What the check of every property consists of (see run.py)."""

RULE = ("cases are drawn from a seeded choice tape (random phase) or from libFuzzer bytes "
        "(coverage-guided phase); non-trivial: ")


def q(cases, fuzz=0, **kw):
    return {"cases": cases, "fuzz": fuzz, **kw}


CHECKS = {}


def add(pid, rule, quick, thorough=None, **kw):
    f = 10
    t = thorough or q(quick["cases"] * f, quick["fuzz"] * f,
                      **{k: v for k, v in quick.items() if k not in ("cases", "fuzz")})
    CHECKS[pid] = {"harness": f"{pid.lower()}.cc", "rule": RULE + rule, "quick": quick,
                   "thorough": t, **kw}


add("T01", "a compared or searched text is not empty; for transitivity, two strict steps",
    q(4000000, 300000))
add("T02", "at least two slicing steps with a non-empty result, or reversed bounds",
    q(4000000, 300000))
add("T03", "the text has at least one line break or two tokens, or an iterator moved twice",
    q(4000000, 300000))
add("T04", "two or more digits, or text behind the number", q(1500000, 60000))
add("T05", "two or more digits, or a non-empty text", q(2000000, 100000))
add("T06", "every word; other texts if not empty", q(1500000, 80000))
add("C01", "at least one row and two columns (round trip), two rows (file), every header width",
    q(300000, 12000))
add("C02", "at least one row", q(300000, 12000))
add("C03", "at least two rows of arbitrary bytes, or a text of at least three bytes",
    q(300000, 15000))
add("C04", "at least two columns written, or a text of at least three bytes", q(1500000, 80000))
add("F01", "at least one line break in a text of two or more bytes", q(250000, 6000))
add("F02", "at least two bytes written; every missing, shrinking or failing file or device", q(140000, 2000), link=["-Wl,--wrap=ftell"])
add("L01", "at least two different flags or arguments", q(700000, 30000))
add("R01", "at least two elements (and, for erased pipelines, one step)", q(1000000, 40000))
add("R02", "at least two elements, or two values of an endless source", q(2500000, 100000))
add("R03", "at least two elements", q(1000000, 40000))
add("R04", "at least two rows, or containers of different sizes", q(250000, 12000))
add("R05", "at least two elements", q(600000, 40000))
add("R06", "at least two elements", q(400000, 20000))
add("R07", "at least two elements", q(1300000, 40000))
add("A01", "no side of the join is empty", q(800000, 30000))
add("A02", "both sequences have elements", q(800000, 30000))
add("A03", "both ranges have elements", q(800000, 30000))
add("A04", "at least two elements", q(800000, 30000))
add("A05", "at least two elements or insertions", q(500000, 20000))
add("A06", "at least two rows", q(500000, 20000))
add("A07", "at least two operations", q(400000, 20000))
add("A08", "at least two elements", q(400000, 20000))
add("A09", "at least two elements", q(1500000, 60000))
add("A10", "at least two bits set", q(3000000, 100000))
add("A13", "at least two handlers or alternatives", q(2000000, 80000))

SCHED = dict(flavour="sched", extra=["schedule.cc"], link=["-rdynamic"],
             assumptions=["interleavings are sequentially consistent; weaker memory orders are covered as far as they "
                          "make plain accesses race",
                          "code of the standard library that is not in headers runs without schedule points"])
add("P01", "at least two jobs and two hardware threads", q(900000), **SCHED)
add("P02", "at least one failing job, two jobs and two hardware threads", q(600000), **SCHED)
add("P03", "at least two jobs and two hardware threads", q(500000), **SCHED)
add("P04", "at least two updates and one configuration", q(600000, 20000), link_repo=True)
add("P05", "at least two threads that update", q(400000), link_repo=True, **SCHED)
add("P06", "at least two changes and one lookup; at least two threads", q(150000, 6000), link_repo=True,
    stages=[{}, dict(suffix="s", harness="p06s.cc", quick=q(100000), thorough=q(1000000), **SCHED)])
add("S01", "at least two guards, and for moves one move", q(1000000, 30000))
add("S02", "at least two operations (buffers) or two opened files, and a move", q(60000, 2000),
    stages=[{}, dict(suffix="p", flavour="plain", quick=q(50000), thorough=q(700000))])
add("S03", "at least three operations and two values taken; trees of two nodes", q(400000, 20000))
add("S04", "the condition is violated; every time stamp; at least two log lines", q(400000, 15000), link_repo=True)

add("A11", "enums of two or more enumerators; literals that are not empty", {"enums": 500, "lits": 400, "cases": 0, "fuzz": 0},
    {"enums": 6000, "lits": 5000}, generator="a11")
add("A12", "pairs of structs whose source has at least two fields", q(350), generator="a12")
add("H01", "programs that include more than one header", q(100), q(1000), generator="h01")
