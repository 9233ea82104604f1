"""C22  CAVOK advice is conservative."""
from .. import stream, world

RUNS = (5000, 80000)
LEVEL = "exploration"
STUBS = stream.STUBS
ASSUMPTIONS = [
    "the text is ASCII and not empty",
    "a layer is below 5,000 feet if its height is known and below; a layer of unknown height is not reported below it",
]
RULE = ("A run is a stream of 1 to 8 reports, many of them with fair weather, after link faults (groups lost, garbled, "
        "repeated, reordered, reports run together) drawn from the run's seed. Wherever a report or a part of it is said to "
        "deserve CAVOK, its visibility must be known and at least 10 km, and neither weather, nor a cloud below 5,000 feet, nor "
        "vertical visibility, nor any cumulonimbus or towering cumulus may be reported in it. Non-trivial: at least one fault "
        "fired and CAVOK was advised or refused for one reason alone; distinct by the digest of all decoded outcomes.")


def objections(s):
    vis = s["prevailing_visibility"]["in_meters"]
    if vis is None or vis < 10000.0:
        yield "its visibility is %r m" % vis
    for w in s["weathers"]["items"]:
        yield "the weather %r is reported" % w["code"]
    for c in s["clouds"]["items"]:
        if c["height_in_feet"] is not None and c["height_in_feet"] < 4999.999:
            yield "the cloud %r at %r feet is reported" % (c["code"], c["height_in_feet"])
        kind = c["cloud_type"] or ""
        if kind.startswith("cumulonimbus") or kind == "towering cumulus":
            yield "a %s (%r) is reported" % (kind, c["code"])
        if c["cover"] == "indefinite ceiling":
            yield "vertical visibility (%r) is reported" % c["code"]


def check(s, res, path="report"):
    if isinstance(s, list):
        for i, x in enumerate(s):
            e = check(x, res, "%s[%d]" % (path, i))
            if e:
                return e
        return None
    if not isinstance(s, dict):
        return None
    if "!should_be_cavok" in s:
        said = s["!should_be_cavok"]
        why = list(objections(s))
        if said is True:
            stream.add(res["counts"], {"advised": 1})
        elif len(why) == 1:
            stream.add(res["counts"], {"refused-for-one-reason": 1})
        if said is True and why:
            return "%s is said to deserve CAVOK but %s" % (path, why[0])
        if not isinstance(said, bool):
            return "%s.should_be_cavok() is %r" % (path, said)
    for k, v in s.items():
        if k[0] != "!":
            e = check(v, res, path + "." + k)
            if e:
                return e
    return None


FAIR_VIS = ["9999", "9999", "CAVOK", "10SM", "15SM", "6SM", "5SM", "7SM", "9999NDV", "9000", "8000", "5 1/2SM", "10KM"]


def fair(r, units):
    """Fair weather, or nearly so: one reason against CAVOK at most, as issued."""
    out, bad = [], r.choice(["no", "no", "low", "cb", "wx", "vis", "vv"])
    for u in units:
        u = dict(u)
        if u["k"] == "vis":
            u["t"] = r.choice(FAIR_VIS[:5] if bad != "vis" else FAIR_VIS)
        elif u["k"] == "wx":
            if bad != "wx":
                continue
        elif u["k"] == "cloud":
            u["t"] = "%s%03d" % (r.choice(["FEW", "SCT", "BKN", "OVC"]), r.randint(50, 250))
            if r.random() < 0.1:
                u["t"] = r.choice(["SKC", "CLR", "NSC", "NCD"])
            elif r.random() < 0.1:
                u["t"] = u["t"][:3] + "///"
            elif r.random() < 0.3:
                if bad == "low":
                    u["t"] = u["t"][:3] + "%03d" % r.choice([49, r.randint(0, 49)])
                elif bad == "cb":
                    u["t"] = r.choice([u["t"], u["t"], u["t"][:3] + "///", "//////"]) + r.choice(["CB", "TCU"])
                elif bad == "vv":
                    u["t"] = "VV%03d" % r.choice([1, 50, 60, 100])
        out.append(u)
    return out


def gen(seed, i, tier):
    r = world.new_rng(seed, "C22", i)
    case = stream.gen(r, r.randint(1, 8), stream.DAMAGE, rate=0.7, storm=0.1, max_ops=r.choice([2, 4, 12]))
    for m in case["msgs"]:
        if r.random() < 0.8:
            m["units"] = fair(r, m["units"])
    return case


def judge(m, req, units, o, at, res):
    if "report" in o:
        e = check(o["report"], res)
        if e:
            return "cavok", e


def run(case, fork):
    res = stream.check_stream(case, fork, judge)
    if not res["counts"]:
        res["key"] = None
    return res


shrink = stream.shrink
