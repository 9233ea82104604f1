"""A stream: reports issued by the simulated stations, carried by faulty links to one receiver.

A case is plain JSON: the receiver's clock and a list of messages, each with its units, the link faults
that hit it, its layout, its delay, and how the receiver decodes it.  Messages are handed over in order of
arrival (issue + delay), so that delays reorder them."""
import datetime as _d

from . import boot, observe, world, wire

TD = _d.timedelta
D = boot.RealDatetime

DAMAGE = list(wire.UNIT_OPS) + list(wire.TEXT_OPS)
LEN = ("cut_tail", "cut_head", "dup", "join")


def instant(iso):
    return D.fromisoformat(iso)


def us_of(t):
    d = t - boot.EPOCH
    return (d.days * 86400 + d.seconds) * 1000000 + d.microseconds


def g_delay(r):
    """Seconds between issue and arrival: mostly minutes, at times hours, days or months."""
    p = r.random()
    if p < 0.5:
        return r.randint(0, 900)
    if p < 0.7:
        return r.randint(0, 6 * 3600)
    if p < 0.85:
        return r.randint(0, 3 * 86400)
    return r.randint(0, 400 * 86400)


def gen(r, n, kinds=None, rate=1.0, max_ops=6, layouts=0.2, given=None, trunc=0.0, delay=None, dup=0.05,
        world_kw=None, span=None, storm=0.1, misfile=None):
    """A stream of n messages.  kinds: fault kinds that may hit (a random subset is enabled per run).
    misfile: how often the receiver names a month or year that is not the report's (default: if there are faults)."""
    if misfile is None:
        misfile = 0.1 if kinds else 0.0
    if kinds:
        enabled = r.sample(kinds, r.randint(1, min(len(kinds), 8)))
    else:
        enabled = []
    start = world.random_instant(r)
    pool = world.Pool(r)
    uid = world.Uids()
    gap = span or r.choice([3, 30, 60, 360, 1440, 1440 * 9])
    given_p = given if given is not None else r.choice([0.0, 0.5, 1.0])
    msgs = []
    t = start
    for i in range(n):
        kind = r.choice(["Metar", "Taf"])
        units = world.report(r, kind, t, uid, pool, **(world_kw or {}))
        m = {"id": i, "kind": kind, "issue": t.isoformat(), "units": units, "ops": [], "layout": None,
             "delay_s": (delay or g_delay)(r), "year": None, "month": None, "truncate": r.random() < trunc}
        if enabled and r.random() < rate:
            other = world.text(msgs[-1]["units"]) if msgs else None
            k = r.choice([1, 1, 2, 3, r.randint(1, max_ops)])
            p = r.random()
            if p < storm / 2:  # hardly a group gets through unharmed
                k = r.randint(len(units) // 2 + 1, 2 * len(units) + 1)
            if storm / 2 <= p < storm and set(enabled) & set(wire.EACH):  # one kind of fault hits groups throughout
                m["ops"] = wire.g_each(r, units, r.choice([x for x in wire.EACH if x in kinds]), r.choice([0.3, 0.7, 1.0]))
            else:
                m["ops"] = wire.g_ops(r, units, enabled, k, other)
        if r.random() < layouts:
            m["layout"] = wire.g_layout(r, len(units) + 6)
        if r.random() < given_p:
            m["year"], m["month"] = t.year, t.month
            if r.random() < misfile:
                m["year"], m["month"] = r.choice([t.year, t.year, r.randint(1960, 2090), None]), r.choice([2, r.randint(1, 12), None])
        msgs.append(m)
        if r.random() < dup:
            msgs.append(dict(m, id=i + 1000, delay_s=m["delay_s"] + r.randint(0, 7200)))
        t = t + TD(minutes=r.randint(0, gap))
    return {"tz_min": r.choice([0, 0, -600, 330, 780, -720, 840, 60]), "skew_s": r.choice([0, 0, 0, 30, -30, 3600]),
            "msgs": msgs}


def arrivals(case):
    """Messages in order of arrival, with the receiver's clock reading at arrival."""
    evs = []
    for n, m in enumerate(case["msgs"]):
        at = us_of(instant(m["issue"])) + m["delay_s"] * 1000000 + case.get("skew_s", 0) * 1000000
        evs.append((at, n, m))
    evs.sort(key=lambda e: (e[0], e[1]))
    return evs


def request(m):
    text, units, fired = wire.render(m)
    return {"kind": m["kind"], "text": text, "year": m["year"], "month": m["month"],
            "truncate": m.get("truncate", False)}, units, fired


def sim_seconds(case):
    ts = [us_of(instant(m["issue"])) for m in case["msgs"]] + [a for a, _, _ in arrivals(case)]
    return (max(ts) - min(ts)) / 1e6 if ts else 0.0


def receive(case, tick_us=0):
    """In a forked process: decode every message as it arrives; the whole list of outcomes."""
    out = []
    for at, n, m in arrivals(case):
        req, _, _ = request(m)
        if req["text"] == "":
            out.append(None)
            continue
        boot.CLOCK.set(at, case["tz_min"], m.get("script", ()), tick_us)
        errors = []
        o = observe.outcome(boot.LIB, req, errors)
        o["errors"] = errors
        out.append(o)
    return out


def add(a, b):
    for k, n in b.items():
        a[k] = a.get(k, 0) + n
    return a


def describe(m, req=None):
    req = req or request(m)[0]
    ym = "" if m["year"] is None and m["month"] is None else ", year=%s, month=%s" % (m["year"], m["month"])
    return "%s(%r%s%s)" % (req["kind"], req["text"], ym, ", truncate=True" if req.get("truncate") else "")


def check_stream(case, fork, judge, receive=receive):
    """Run the stream in one process and judge each outcome.  -> result dict."""
    from .runner import died

    faults, measures, log = {}, {"texts": set(), "outcomes": set()}, []
    outs = fork(receive, case)
    res = {"faults": faults, "counts": {}, "sim_s": sim_seconds(case), "measures": measures}
    evs = arrivals(case)
    if died(outs):
        # Which message was it?  Receive ever shorter histories.
        bad = None
        for k in range(len(evs)):
            sub = dict(case, msgs=[evs[k][2]])
            if died(fork(receive, sub)):
                bad = evs[k][2]
                break
        res["viol"] = {"clause": outs["!died"].split()[0],
                       "detail": "%s while decoding %s" % (outs["!died"], describe(bad) if bad else "the stream")}
        res["log"] = res["viol"]["detail"]
        return res
    res["viol"] = None
    for (at, n, m), o in zip(evs, outs):
        req, units, fired = request(m)
        add(faults, fired)
        if m["delay_s"] > 86400:
            add(faults, {"late": 1})
        if o is None:
            continue
        log.append(observe.digest(o))
        measures["texts"].add(observe.digest(req)[:12])
        measures["outcomes"].add(log[-1][:12])
        if res["viol"] is None:
            v = judge(m, req, units, o, at, res)
            if v:
                res["viol"] = {"clause": v[0], "detail": "%s: %s" % (describe(m, req), v[1])}
    res["key"] = observe.digest(log) if faults else None
    res["log"] = observe.digest(log)
    res["sample"] = [describe(m) for _, _, m in evs[:2]]
    return res


# ---------------------------------------------------------------------------------------------- shrink
def shrink(case):
    from .runner import drop_one

    for ms in drop_one(case["msgs"], 1):
        yield dict(case, msgs=ms)
    for i, m in enumerate(case["msgs"]):
        put = lambda m2: dict(case, msgs=case["msgs"][:i] + [m2] + case["msgs"][i + 1:])
        for c in shrink_msg(m):
            yield put(c)
    if case.get("skew_s"):
        yield dict(case, skew_s=0)
    if case.get("tz_min"):
        yield dict(case, tz_min=0)


def shrink_msg(m):
    from .runner import drop_one

    for ops in drop_one(m["ops"]):
        yield dict(m, ops=ops)
    for us in drop_one(m["units"], 1):
        yield dict(m, units=us)
    if m.get("layout"):
        yield dict(m, layout=None)
        lay = m["layout"]
        if lay.get("head"):
            yield dict(m, layout=dict(lay, head=""))
        if lay.get("tail"):
            yield dict(m, layout=dict(lay, tail=""))
        if any(s != " " for s in lay["seps"]):
            for i, s in enumerate(lay["seps"]):
                if s != " ":
                    yield dict(m, layout=dict(lay, seps=lay["seps"][:i] + [" "] + lay["seps"][i + 1:]))
    if m["delay_s"]:
        yield dict(m, delay_s=0)
    if m.get("truncate"):
        yield dict(m, truncate=False)
    for i, op in enumerate(m["ops"]):
        if op.get("times", 1) > 1:
            yield dict(m, ops=m["ops"][:i] + [dict(op, times=1)] + m["ops"][i + 1:])
        if op["op"] in ("cut_tail", "cut_head", "drop_at") and op.get("n", 1) > 1:
            yield dict(m, ops=m["ops"][:i] + [dict(op, n=op["n"] // 2)] + m["ops"][i + 1:])


STUBS = ("stations, forecasters and links (simulated world and fault-injecting links); the wall clock and local "
         "time zone (simulated, seeded)")
