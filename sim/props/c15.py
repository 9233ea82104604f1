"""C15  TAF validity and temperature times land on the right calendar days."""
import calendar

from .. import boot, observe, stream, world

RUNS = (6000, 100000)
LEVEL = "exploration"
STUBS = stream.STUBS + "; ground truth: the instants the simulated forecaster meant"
ASSUMPTIONS = ["year and month given, or the receiver's UTC clock is within the month of issue during the decode",
               "validity of 1 to 30 hours starting between 6 hours before and 24 hours after issue"]
RULE = ("A run is a stream of 2 to 8 TAFs whose issue instants crowd around ends of days, months, leap Februaries and "
        "years, received by a receiver with any clock (year and month given) or a clock somewhere within the month of "
        "issue; the decoded validity and temperature times must be the instants the forecaster meant. Non-trivial: "
        "some validity or temperature crosses midnight; distinct by the digest of all decoded outcomes.")
OWN = ("type", "modifier", "station", "time", "valid", "txtn", "kw", "cnl", "nil", "period")
GARBLE = "#*?%~&!"


def month_us(t):
    """First and last microsecond of the month of t."""
    a = stream.us_of(boot.RealDatetime(t.year, t.month, 1))
    return a, a + calendar.monthrange(t.year, t.month)[1] * 86400 * 1000000 - 1


def border(r):
    """An issue instant, mostly within two days of a border of the calendar."""
    y = r.randint(1972, 2090)
    if r.random() < 0.3:
        y = r.choice([1972, 1999, 2000, 2004, 2023, 2024, 2028, 2096 - 8])
    p = r.random()
    if p < 0.25:
        t = boot.RealDatetime(y, 3, 1)
    elif p < 0.45:
        t = boot.RealDatetime(y, 1, 1)
    elif p < 0.8:
        t = boot.RealDatetime(y, r.randint(1, 12), 1)
    else:
        t = boot.RealDatetime(y, r.randint(1, 12), r.randint(1, 28))
    return t + stream.TD(minutes=r.choice([r.randint(-2900, 1500), r.randint(-60, 60), r.randint(-1500, 400)]))


def gen_stream(r, kinds, make):
    pool, uid = world.Pool(r), world.Uids()
    msgs = []
    for n in range(r.randint(2, 8)):
        issue = border(r)
        kind = r.choice(kinds)
        units = make(r, kind, issue, uid, pool)
        how = r.choice(["given", "clock", "clock", "year", "month"])
        lo, hi = month_us(issue)
        if how == "given":
            at = stream.us_of(world.random_instant(r, 1972, 2090))
        else:
            at = r.choice([r.randint(lo, hi), lo, hi, min(hi, stream.us_of(issue) + r.randint(0, 3600) * 1000000)])
        ops = []
        if r.random() < 0.2:
            for u in units:
                if u["k"] not in OWN and r.random() < 0.3:
                    ops.append({"op": "garble", "u": u["u"], "pos": r.randrange(9), "ch": r.choice(GARBLE)})
        msgs.append({"id": n, "kind": kind, "issue": issue.isoformat(), "units": units, "ops": ops,
                     "layout": world_layout(r, units), "delay_s": 0, "truncate": False, "at": at,
                     "tz": r.choice([0, 0, -720, 840, 330]),
                     "year": issue.year if how in ("given", "month") else None,
                     "month": issue.month if how in ("given", "year") else None})
    return {"tz_min": 0, "skew_s": 0, "msgs": msgs}


def world_layout(r, units):
    from .. import wire

    return wire.g_layout(r, len(units) + 6) if r.random() < 0.1 else None


def receive(case):
    out = []
    for _, _, m in stream.arrivals(case):
        req, _, _ = stream.request(m)
        if not req["text"]:
            out.append(None)
            continue
        boot.CLOCK.set(m["at"], m["tz"])
        errors = []
        o = observe.outcome(boot.LIB, req, errors)
        o["errors"] = errors
        out.append(o)
    return out


def gen(seed, i, tier):
    r = world.new_rng(seed, "C15", i)
    return gen_stream(r, ["Taf"], lambda r, k, t, uid, pool: world.taf(r, t, uid, pool, rich=0.2, max_changes=2))


def instants(xs):
    return [x["time"]["time"]["!t"] if x["time"] else None for x in xs]


def judge(m, req, units, o, at, res):
    clock = "clock %s, " % boot.from_us(m["at"]) if m["year"] is None or m["month"] is None else ""
    where = "%sissued %s: " % (clock, m["issue"])
    if "raised" in o:
        return "raised", where + "%s: %s" % (o["raised"]["!exc"], o["raised"]["msg"])
    rep = o["report"]
    of = {}
    for u in m["units"]:
        of.setdefault((u["k"], u["sec"]), []).append(u)
    if ("station", 0) not in of or ("time", 0) not in of:
        return None  # met only while minimising
    if rep["time"]["time"]["!t"] != m["issue"]:
        return "issue", where + "dated %s" % rep["time"]["time"]["!t"]
    for u in of.get(("valid", 0), []):
        got = [rep["valid"][p]["time"]["!t"] for p in ("period_from", "period_until")]
        if got != [u["from"], u["until"]]:
            return "valid", where + "validity %s meant %s to %s but is %s to %s" % (
                u["t"], u["from"], u["until"], got[0], got[1])
        secs = (stream.instant(u["until"]) - stream.instant(u["from"])).total_seconds()
        if rep["valid"]["duration"] != {"!d": secs}:
            return "valid", where + "the duration is %r" % rep["valid"]["duration"]
        stream.add(res["counts"], {"validities": 1})
        if u["from"][:7] != u["until"][:7] or u["from"][:7] != m["issue"][:7]:
            stream.add(res["counts"], {"crosses-month": 1})
        if u["from"][:10] != u["until"][:10]:
            stream.add(res["faults"], {"crosses-midnight": 1})
    for w, slot in (("X", "max_temperatures"), ("N", "min_temperatures")):
        us = [u for u in of.get(("txtn", 0), []) if u["which"] == w]
        if ("valid", 0) not in of:
            continue
        got = instants(rep[slot]["items"])
        if got != [u["inst"] for u in us]:
            return "temperature", where + "%s meant %r but is %r" % (
                " ".join(u["t"] for u in us), [u["inst"] for u in us], got)
        stream.add(res["counts"], {"temperatures": len(us)})
    return None


def finish(case, fork, judge):
    res = stream.check_stream(case, fork, judge, receive)
    ats = [stream.us_of(stream.instant(m["issue"])) for m in case["msgs"]]
    res["sim_s"] = (max(ats) - min(ats)) / 1e6
    for m in case["msgs"]:
        if m["year"] is None or m["month"] is None:
            stream.add(res["faults"], {"clock-only": 1})
    res["key"] = res["log"] if res["faults"] else None
    return res


def run(case, fork):
    return finish(case, fork, judge)


def shrink(case):
    yield from stream.shrink(case)
    for i, m in enumerate(case["msgs"]):
        if m["tz"]:
            yield dict(case, msgs=case["msgs"][:i] + [dict(m, tz=0)] + case["msgs"][i + 1:])
