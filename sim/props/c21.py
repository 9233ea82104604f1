"""C21  Flight rules follow from visibility and ceiling."""
from .. import stream, world

RUNS = (5000, 80000)
LEVEL = "exploration"
STUBS = stream.STUBS
ASSUMPTIONS = [
    "the text is ASCII and not empty",
    "the categories are the library's: VLIFR below 60 m or 800 m of visibility, LIFR below 150 m or 1,600 m, IFR below 300 m "
    "or 5,000 m, MVFR below 900 m or 8,000 m, else VFR",
    "the ceiling is the lowest broken or overcast layer, or vertical visibility, whose height is known",
]
RULE = ("A run is a stream of 1 to 8 reports after link faults (groups lost, garbled, repeated, reordered, reports run together) "
        "drawn from the run's seed. The flight rules of every report, trend and change must be those that its own visibility "
        "and cloud layers, in whatever order they came, call for. Non-trivial: at least one fault fired and a category "
        "followed; distinct by the digest of all decoded outcomes.")
RULES = [("VLIFR", 60.0, 800.0), ("LIFR", 150.0, 1600.0), ("IFR", 300.0, 5000.0), ("MVFR", 900.0, 8000.0)]
CEILINGS = ("broken", "overcast", "indefinite ceiling")


def wanted(s):
    vis = s["prevailing_visibility"]["in_meters"]
    ceilings = [c["height_in_meters"] for c in s["clouds"]["items"]
                if c["cover"] in CEILINGS and c["height_in_meters"] is not None]
    ceiling = min(ceilings) if ceilings else None
    if vis is None and ceiling is None:
        return None, vis, ceiling
    for name, c, v in RULES:
        if ceiling is not None and ceiling < c or vis is not None and vis < v:
            return name, vis, ceiling
    return "VFR", vis, ceiling


def check(s, res, path="report"):
    if isinstance(s, list):
        for i, x in enumerate(s):
            e = check(x, res, "%s[%d]" % (path, i))
            if e:
                return e
        return None
    if not isinstance(s, dict):
        return None
    if "flight_rules" in s and "!class" in s:
        want, vis, ceiling = wanted(s)
        if want:
            stream.add(res["counts"], {want: 1})
        if s["flight_rules"] != want:
            return "%s.flight_rules is %r; visibility %r m and ceiling %r m call for %r" % (
                path, s["flight_rules"], vis, ceiling, want)
    for k, v in s.items():
        if k[0] != "!":
            e = check(v, res, path + "." + k)
            if e:
                return e
    return None


def gen(seed, i, tier):
    r = world.new_rng(seed, "C21", i)
    return stream.gen(r, r.randint(1, 8), stream.DAMAGE, rate=0.7, storm=0.2, max_ops=r.choice([2, 4, 12]))


def judge(m, req, units, o, at, res):
    if "report" in o:
        e = check(o["report"], res)
        if e:
            return "rules", e


def run(case, fork):
    res = stream.check_stream(case, fork, judge)
    if not res["counts"]:
        res["key"] = None
    return res


shrink = stream.shrink
