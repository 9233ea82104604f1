"""C07  Omitted year and month come from the UTC clock at decode time."""
import calendar

from .. import boot, observe, stream, world
from ..runner import died

RUNS = (6000, 100000)
LEVEL = "exploration"
STUBS = stream.STUBS
ASSUMPTIONS = ["the library reads the clock through datetime or time (both behind the simulated clock)",
               "a month without the report's day is C09's matter"]
RULE = ("A run is a receiver that decodes 2 to 10 reports over simulated time with the year, the month or both omitted, "
        "in a local zone up to 14 hours off, with a clock that ticks at each reading and is stepped or rolls over "
        "between two readings of one decode; the date of each report must come from one reading of the UTC clock made "
        "during that decode. Non-trivial: a step, rollover, zone offset or month border is involved; distinct by the "
        "digest of all decoded dates.")


def gen(seed, i, tier):
    r = world.new_rng(seed, "C07", i)
    pool, uid = world.Pool(r), world.Uids()
    t = world.random_instant(r, 1972, 2090)
    out = []
    for n in range(r.randint(2, 10)):
        p = r.random()
        if p < 0.35:  # around a month or year border
            y, mth = t.year, t.month
            if r.random() < 0.5:
                y, mth = y + 1, 1
            elif mth == 12:
                y, mth = y + 1, 1
            else:
                mth += 1
            border = boot.RealDatetime(y, mth, 1)
            at = border + stream.TD(microseconds=r.choice([
                -1, 0, -1000, r.randint(-60, 60) * 1000000, r.randint(-14 * 3600, 14 * 3600) * 1000000]))
        elif p < 0.8:
            at = t + stream.TD(seconds=r.randint(0, 86400 * r.choice([1, 20, 400])))
        else:
            at = t - stream.TD(seconds=r.randint(0, 86400 * r.choice([1, 40, 500])))  # the clock was set back
        if at.year < 1972 or at.year > 2095:
            at = at.replace(year=2000, day=min(at.day, 28))
        t = at
        # a report issued around then (its own date doesn't matter but its day does)
        issue = (at - stream.TD(minutes=r.choice([0, 5, 60, 1440]))).replace(second=0, microsecond=0)
        if r.random() < 0.3:
            issue = issue.replace(day=r.randint(1, 28))
        kind = r.choice(["Metar", "Taf"])
        units = world.report(r, kind, issue, uid, pool, rich=0.2)
        omit = r.choice(["both", "both", "both", "year", "month"])
        c = {"at": stream.us_of(at), "tz": r.choice([0, -720, 840, 330, -210, -60, 60]),
             "tick": r.choice([0, 0, 1, 1000000, 86400 * 1000000]), "script": []}
        if r.random() < 0.6:
            k = r.choice([1, 1, 1, 2, 2, 3, 4, r.randint(1, 20)])
            c["script"] = [[k, r.choice([1, 1, 1, -1]) * r.choice([2, 3600, 86400, 86400 * 28, 86400 * 31, 86400 * 366])
                            * 1000000]]
            if r.random() < 0.3:
                c["script"].append([k + r.randint(0, 3), r.choice([1, -1]) * 86400 * 31 * 1000000])
        ops = []
        if r.random() < 0.08:
            tu = [u for u in units if u["k"] == "time"]
            ops = [{"op": "lose", "u": tu[0]["u"]}]
        out.append({"id": n, "kind": kind, "issue": issue.isoformat(), "units": units, "ops": ops, "layout": None,
                    "delay_s": 0, "truncate": False,
                    "year": r.randint(1972, 2095) if omit == "month" else None,
                    "month": r.randint(1, 12) if omit == "year" else None, "clock": c})
    return {"tz_min": 0, "skew_s": 0, "msgs": out}


def receive(case):
    out = []
    for m in case["msgs"]:
        req, _, _ = stream.request(m)
        if not req["text"]:
            out.append(None)
            continue
        c = m["clock"]
        boot.CLOCK.set(c["at"], c["tz"], c["script"], c["tick"])
        try:
            rep = observe.decode(boot.LIB, req["kind"], req["text"], req["year"], req["month"])
        except Exception as e:
            out.append({"raised": observe.exc(e), "log": list(boot.CLOCK.log)})
            continue
        log = list(boot.CLOCK.log)
        out.append({"time": rep.time.time.isoformat(), "log": log})
    return out


def lacks(y, m, day):
    return day > calendar.monthrange(y, m)[1]


def judge(m, req, o):
    now = [boot.from_us(us) for us in (o["log"] or [m["clock"]["at"]])]
    tu = [u for u in m["units"] if u["k"] == "time"]
    day = stream.instant(tu[0]["at"]).day if tu and not m["ops"] else 1
    y, mth = req["year"], req["month"]
    allowed = {(y or t.year, mth or t.month) for t in now}
    # which of two readings counts is free; a month without that day is not judged here
    if any(lacks(a, b, day) for a, b in allowed) or \
            any(lacks(a, b, day) for a in {x for x, _ in allowed} for b in {x for _, x in allowed}):
        return None, False
    where = "clock %s UTC%s, zone %+d min" % (
        now[0], "" if len(now) == 1 else " then " + ", ".join(str(t) for t in now[1:4]), m["clock"]["tz"])
    if "raised" in o:
        return ("raised", "%s: %s: %s" % (where, o["raised"]["!exc"], o["raised"]["msg"])), True
    t = stream.instant(o["time"])
    if (t.year, t.month) not in allowed:
        return ("date", "%s: dated %s" % (where, o["time"])), True
    if t.day != day and tu and not m["ops"]:
        return ("day", "%s: dated %s" % (where, o["time"])), True
    return None, True


def run(case, fork):
    outs = fork(receive, case)
    ms = case["msgs"]
    ats = [m["clock"]["at"] for m in ms]
    res = {"faults": {}, "counts": {}, "sim_s": (max(ats) - min(ats)) / 1e6, "viol": None,
           "measures": {"clock-months": set(), "texts": set()}}
    if died(outs):
        res["viol"] = {"clause": outs["!died"].split()[0], "detail": outs["!died"]}
        return res
    log = []
    for m, o in zip(ms, outs):
        if o is None:
            continue
        req, _, fired = stream.request(m)
        stream.add(res["faults"], fired)
        c = m["clock"]
        for k in [a for a, _ in c["script"]]:
            stream.add(res["faults"], {"clock-step": 1} if k < len(o["log"]) else {"clock-step-after": 1})
        if c["tz"]:
            stream.add(res["faults"], {"zone": 1})
        if c["tick"]:
            stream.add(res["faults"], {"tick": 1})
        local = boot.from_us(c["at"] + c["tz"] * 60000000)
        utc = boot.from_us(c["at"])
        if (local.year, local.month) != (utc.year, utc.month):
            stream.add(res["faults"], {"local-month-differs": 1})
        v, judged = judge(m, req, o)
        stream.add(res["counts"], {"judged": 1} if judged else {"day-not-in-month": 1})
        stream.add(res["counts"], {"clock-reads": len(o["log"])})
        log.append(observe.digest([req["text"], o.get("time"), o.get("raised")]))
        res["measures"]["clock-months"].add("%d-%d" % (utc.year, utc.month))
        res["measures"]["texts"].add(observe.digest(req)[:12])
        if v and not res["viol"]:
            res["viol"] = {"clause": v[0], "detail": "%s: %s" % (stream.describe(m, req), v[1])}
    res["key"] = observe.digest(log) if res["faults"] else None
    res["log"] = observe.digest(log)
    res["sample"] = [stream.describe(m) for m in ms[:2]]
    return res


def shrink(case):
    yield from stream.shrink(case)
    for i, m in enumerate(case["msgs"]):
        put = lambda m2: dict(case, msgs=case["msgs"][:i] + [m2] + case["msgs"][i + 1:])
        c = m["clock"]
        for k, v in (("script", []), ("tick", 0), ("tz", 0)):
            if c[k]:
                yield put(dict(m, clock=dict(c, **{k: v})))
        if len(c["script"]) > 1:
            for j in range(len(c["script"])):
                yield put(dict(m, clock=dict(c, script=c["script"][:j] + c["script"][j + 1:])))
