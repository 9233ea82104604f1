"""C20  Unit conversions agree."""
import re

from .. import stream, world

RUNS = (4000, 60000)
LEVEL = "exploration"
STUBS = stream.STUBS
ASSUMPTIONS = [
    "the text is ASCII and not empty",
    "which unit a property is in is the last part of its name (..._in_feet); properties named otherwise are not judged",
    "sea mile means the nautical mile of 1,852 m, as the library has it",
]
RULE = ("A run is a stream of 1 to 8 reports after link faults drawn from the run's seed. In every report and every object "
        "reachable from it, all properties that give one quantity in several units must state one physical amount (to one "
        "part in 100,000) and its sign, or all be absent. Non-trivial: at least one fault fired and one "
        "quantity was given; distinct by the digest of all decoded outcomes.")
PI = 3.141592653589793
# unit -> (dimension, value of one unit, value of zero)
UNITS = {
    "meters": ("length", 1.0, 0.0), "kilometers": ("length", 1000.0, 0.0), "sea_miles": ("length", 1852.0, 0.0),
    "feet": ("length", 0.3048, 0.0), "centimeters": ("length", 0.01, 0.0), "decimeters": ("length", 0.1, 0.0),
    "inches": ("length", 0.0254, 0.0),
    "degrees": ("angle", 1.0, 0.0), "radians": ("angle", 180 / PI, 0.0), "gradians": ("angle", 0.9, 0.0),
    "knot": ("speed", 1852 / 3600, 0.0), "mps": ("speed", 1.0, 0.0), "kph": ("speed", 1 / 3.6, 0.0),
    "miph": ("speed", 1609.344 / 3600, 0.0),
    "hPa": ("pressure", 1.0, 0.0), "mbar": ("pressure", 1.0, 0.0), "bar": ("pressure", 1000.0, 0.0),
    "inHg": ("pressure", 33.86389, 0.0), "atm": ("pressure", 1013.25, 0.0),
    "celsius": ("heat", 1.0, 273.15), "kelvin": ("heat", 1.0, 0.0), "fahrenheit": ("heat", 5 / 9, 459.67 * 5 / 9),
    "rankine": ("heat", 5 / 9, 0.0),
}
NAME = re.compile(r"(?:(.+)_)?in_(%s)" % "|".join(UNITS))
REL = 1e-5


def quantities(s):
    """{(name of the quantity, dimension): {unit: value}} of one object."""
    out = {}
    for k, v in s.items():
        m = NAME.fullmatch(k)
        if m and (v is None or isinstance(v, (int, float)) and not isinstance(v, bool)):
            out.setdefault((m[1], UNITS[m[2]][0]), {})[m[2]] = v
    return out


def disagree(q):
    """What is wrong among these values of one quantity."""
    given = {u: v for u, v in q.items() if v is not None}
    if not given:
        return None
    if len(given) != len(q):
        return "given in %s but not in %s" % (sorted(given), sorted(set(q) - set(given)))
    amounts = {u: UNITS[u][2] + v * UNITS[u][1] for u, v in given.items()}
    a, b = min(amounts, key=amounts.get), max(amounts, key=amounts.get)
    size = max(abs(amounts[a]), abs(amounts[b]))
    if amounts[b] - amounts[a] > REL * size + 1e-6:
        return "%r %s is not %r %s" % (given[a], a, given[b], b)
    return None


def check(s, res, path="report"):
    if isinstance(s, list):
        for i, x in enumerate(s):
            e = check(x, res, "%s[%d]" % (path, i))
            if e:
                return e
        return None
    if not isinstance(s, dict):
        return None
    for (name, _), q in quantities(s).items():
        if len(q) > 1:
            if any(v is not None for v in q.values()):
                stream.add(res["counts"], {"quantities": 1})
            e = disagree(q)
            if e:
                return "%s%s: %s" % (path, "." + name if name else "", e)
    for k, v in s.items():
        if k[0] != "!":
            e = check(v, res, path + "." + k)
            if e:
                return e
    return None


def gen(seed, i, tier):
    r = world.new_rng(seed, "C20", i)
    return stream.gen(r, r.randint(1, 8), stream.DAMAGE, rate=0.7, storm=0.2, max_ops=r.choice([2, 4, 12]))


def judge(m, req, units, o, at, res):
    if "report" in o:
        e = check(o["report"], res)
        if e:
            return "units", e


def run(case, fork):
    res = stream.check_stream(case, fork, judge)
    if not res["counts"].get("quantities"):
        res["key"] = None
    return res


shrink = stream.shrink
