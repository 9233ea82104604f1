"""C09  A late report decodes on any date."""
import calendar
import datetime as _d

from .. import boot, observe, stream, world

RUNS = (6000, 100000)
LEVEL = "exploration"
STUBS = stream.STUBS
ASSUMPTIONS = ["year and month are omitted", "the receiver's clock shows a date between 1901 and 2099 and stands still "
               "during one decode"]
RULE = ("A run is a stream of 1 to 8 undamaged reports that arrive minutes to years late (or on a receiver with a wrong "
        "date), in order of arrival, a third of them decoded in strict mode; none may raise and each must be dated to "
        "its day in the clock's month or the most recent month that has it. Non-trivial: at least one report was "
        "late, early or skewed; distinct by the digest of all decoded outcomes.")


def gen(seed, i, tier):
    r = world.new_rng(seed, "C09", i)
    style = r.random()

    def delay(r):
        p = r.random()
        if p < 0.2:
            return r.randint(0, 7200)
        if p < 0.4:
            return r.randint(0, 3 * 86400)
        if p < 0.8:
            return r.randint(0, 100) * 86400 + r.choice([0, r.randint(0, 86399)])
        if p < 0.95:
            return r.randint(0, 366 * 9) * 86400 + r.randint(0, 86399)
        return -r.randint(0, 60 * 86400)

    case = stream.gen(r, r.randint(1, 8), None, given=0.0, trunc=0.33, delay=delay, layouts=0.1)
    if style < 0.5:
        # days that few months have, received in months without them
        for m in case["msgs"]:
            t = stream.instant(m["issue"])
            if r.random() < 0.8:
                last = calendar.monthrange(t.year, t.month)[1]
                day = r.choice([28, 29, 30, 31, last])
                if day <= last:
                    t2 = t.replace(day=day)
                    kw = {"pool": world.Pool(r)}
                    m["units"] = world.report(r, m["kind"], t2, world.Uids(), kw["pool"])
                    m["issue"] = t2.isoformat()
                    t = t2
            target = world.random_instant(r, t.year, t.year + r.choice([0, 1, 4]))
            if r.random() < 0.5:
                target = target.replace(month=r.choice([2, 2, 3, 4, 6, 9, 11]), day=r.choice([1, 1, 2, 15, 28]))
            m["delay_s"] = int((target - t).total_seconds())
    return case


def expected(now, day, hour, minute):
    """The day in the clock's month, or else in the most recent month that has it."""
    y, mth = now.year, now.month
    while calendar.monthrange(y, mth)[1] < day:
        y, mth = (y, mth - 1) if mth > 1 else (y - 1, 12)
    return boot.RealDatetime(y, mth, day, hour, minute)


def judge(m, req, units, o, at, res):
    now = boot.from_us(at)
    if "raised" in o:
        return "raised", "received at %s UTC: %s: %s" % (now, o["raised"]["!exc"], o["raised"]["msg"])
    tu = [u for u in m["units"] if u["k"] == "time"]
    if not tu:
        return None
    t = stream.instant(tu[0]["at"])
    want = expected(now, t.day, t.hour, t.minute)
    got = o["report"]["time"]
    if got["time"]["!t"] != want.isoformat():
        return "date", "received at %s UTC: dated %s instead of %s" % (now, got["time"]["!t"], want.isoformat())
    if want.month != now.month:
        stream.add(res["counts"], {"earlier-month": 1})
    parts = (got["year"], got["month"], got["day"], got["hour"], got["minute"])
    if parts != (want.year, want.month, want.day, want.hour, want.minute):
        return "parts", "year, month, day, hour and minute are %r, the time is %s" % (parts, want)
    return None


def run(case, fork):
    res = stream.check_stream(case, fork, judge)
    late = sum(1 for m in case["msgs"] if m["delay_s"] > 3600)
    early = sum(1 for m in case["msgs"] if m["delay_s"] < 0)
    skew = 1 if case.get("skew_s") else 0
    for k, n in (("late-1h", late), ("early", early), ("skew", skew)):
        if n:
            stream.add(res["faults"], {k: n})
    res["key"] = res["log"] if res["faults"] else None
    return res


shrink = stream.shrink
