"""C30  Only complete groups are decoded as data."""
from .. import forms, stream, wire, world

RUNS = (9000, 150000)
LEVEL = "exploration"
STUBS = stream.STUBS + "; the forms of the groups (sim/forms.py) are written by hand"
ASSUMPTIONS = ["the text is ASCII and not empty",
               "forms the library takes although no station sends them (a bare SM, RE or WS RWY) count as complete"]
RULE = ("A run is a stream of 1 to 6 reports, most of whose groups arrive nearly right: a character too many at either end or "
        "within, one missing, replaced by another of its kind or exchanged with its neighbour, two groups run together. In "
        "every decoded report the code of each decoded group must, as a whole, have a form its place allows. "
        "Non-trivial: at least one fault fired; distinct by the digest of all decoded outcomes.")
NEAR = ["insert", "typo", "transpose", "drop", "chop", "merge", "flip", "mask", "split"]


def near(r, u):
    """One character too many at one end: of the kind found there, or any."""
    t, head = u["t"], r.random() < 0.35
    c = t[0] if head else t[-1]
    ch = r.choice("0123456789") if c.isdigit() and r.random() < 0.6 else r.choice(wire.REPORT_CHARS)
    return {"op": "insert", "u": u["u"], "pos": 0 if head else len(t), "ch": ch}


def gen(seed, i, tier):
    r = world.new_rng(seed, "C30", i)
    case = stream.gen(r, r.randint(1, 6), NEAR, rate=0.7, max_ops=r.choice([2, 6, 12]), layouts=0.05)
    share = r.choice([0.0, 0.1, 0.3, 0.3, 0.8])
    for m in case["msgs"]:
        m["ops"] = m["ops"] + [near(r, u) for u in m["units"] if u["t"] and r.random() < share]
    return case


def judge(m, req, units, o, at, res):
    if "report" not in o:
        return None
    bad, n = forms.check(o["report"], m["kind"])
    res["counts"]["codes-checked"] = res["counts"].get("codes-checked", 0) + n
    return ("form", bad[0]) if bad else None


def run(case, fork):
    return stream.check_stream(case, fork, judge)


shrink = stream.shrink
