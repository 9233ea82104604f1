"""C16  Forecast change windows land on the right instants."""
from .. import boot, observe, stream, world
from . import c15

RUNS = (6000, 100000)
LEVEL = "exploration"
STUBS = c15.STUBS
ASSUMPTIONS = ["year and month given, or the receiver's UTC clock is within the month of issue during the decode",
               "at most 2 METAR trends and 8 TAF changes (further ones are reported as unparsed)"]
RULE = ("A run is a stream of 2 to 8 METAR and TAF reports whose issue instants crowd around ends of days, months, leap "
        "Februaries and years, with trend and change groups of every kind; the window of each decoded change must be "
        "the one the forecaster meant. Non-trivial: some window lies on another day than the issue or follows from "
        "another group; distinct by the digest of all decoded outcomes.")


def make(r, kind, t, uid, pool):
    if kind == "Metar":
        for _ in range(6):
            us = world.metar(r, t, uid, pool, rich=0.2)
            if any(u["k"] == "kw" for u in us):
                break
        return us
    return world.taf(r, t, uid, pool, rich=0.2, max_changes=8)


def gen(seed, i, tier):
    r = world.new_rng(seed, "C16", i)
    return c15.gen_stream(r, ["Metar", "Taf"], make)


def judge(m, req, units, o, at, res):
    clock = "clock %s, " % boot.from_us(m["at"]) if m["year"] is None or m["month"] is None else ""
    where = "%sissued %s: " % (clock, m["issue"])
    if "raised" in o:
        return "raised", where + "%s: %s" % (o["raised"]["!exc"], o["raised"]["msg"])
    rep = o["report"]
    kws = [u for u in m["units"] if u["k"] == "kw"]
    if [u["sec"] for u in kws] != list(range(1, len(kws) + 1)) or \
            not {"station", "time"} <= {u["k"] for u in m["units"]}:
        return None  # met only while minimising
    if any(isinstance(u["sec"], int) and u["sec"] > len(kws) for u in m["units"]):
        return None
    for u in kws:
        mine = [v for v in m["units"] if v["sec"] == u["sec"]]
        if m["kind"] == "Taf" and (not any(v["k"] == "valid" and v["sec"] == 0 for v in m["units"]) or (
                u["chg"] != "FM" and not any(v["k"] == "valid" for v in mine))):
            return None
        if len(mine) < 2 and u["t"] != "NOSIG" and not u["t"].startswith("FM"):
            return None
    items = rep["weather_trends" if m["kind"] == "Metar" else "changes_forecasted"]["items"]
    if len(items) != len(kws):
        return "changes", where + "%d changes were sent, %d decoded" % (len(kws), len(items))
    for u, x in zip(kws, items):
        name = " ".join(v["t"] for v in m["units"] if v["sec"] == u["sec"])
        if m["kind"] == "Metar":
            ind = x["trend_indicator"]
            got = {"from": ind["period_from"]["time"]["!t"], "until": ind["period_until"]["time"]["!t"],
                   "at": ind["period_at"]["time"]["!t"] if ind["period_at"] else None}
            want = {"from": u["from"], "until": u["until"], "at": u.get("at")}
            end = (stream.instant(m["issue"]) + stream.TD(hours=2)).isoformat()
            fp = [t["time"]["!t"] for t in ind["forecast_period"]]
            if fp != [m["issue"], end]:
                return "period", where + "%s: the two hours after the report are %r" % (name, fp)
        else:
            v = x["change_indicator"]["valid"]
            got = {"from": v["period_from"]["time"]["!t"], "until": v["period_until"]["time"]["!t"]}
            want = {"from": u["from"], "until": u["until"]}
        if got != want:
            return "window", where + "%s: meant %r, decoded %r" % (name, want, got)
        stream.add(res["counts"], {"window-" + u["t"].split()[0][:5 if not u["t"].startswith("FM") else 2]: 1})
        if want["from"][:10] != m["issue"][:10] or want["until"][:10] != want["from"][:10]:
            stream.add(res["faults"], {"crosses-midnight": 1})
        if want["from"][:7] != m["issue"][:7] or want["until"][:7] != want["from"][:7]:
            stream.add(res["counts"], {"crosses-month": 1})
    return None


def run(case, fork):
    return c15.finish(case, fork, judge)


def shrink(case):
    """Whole groups only where that keeps the ground truth: changes aren't left out one by one."""
    for c in c15.shrink(case):
        ok = True
        for a, b in ((x, y) for x in case["msgs"] for y in c["msgs"] if x["id"] == y["id"]):
            ka = [u["u"] for u in a["units"] if u["k"] in ("kw", "period", "valid")]
            kb = [u["u"] for u in b["units"] if u["k"] in ("kw", "period", "valid")]
            ok = ok and ka == kb
        if ok:
            yield c
