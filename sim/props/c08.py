"""C08  With year and month given the clock is irrelevant."""
from .. import boot, observe, stream, world
from ..runner import died

RUNS = (4000, 60000)
LEVEL = "exploration"
STUBS = stream.STUBS
ASSUMPTIONS = ["a given year is between 1900 and 2100"]
RULE = ("A run is a stream of 1 to 4 reports (most of them after link faults), each decoded with its year and month "
        "under 2 to 4 receivers whose clocks show other dates, in other zones, ticking and stepping in the middle of "
        "the decode; all outcomes of a report must be equal and dated in its year and month, and every report still "
        "held must read the same at the end. Non-trivial: always (at least two clocks); distinct by the digest of all "
        "decoded outcomes.")


def gen(seed, i, tier):
    r = world.new_rng(seed, "C08", i)
    case = stream.gen(r, r.randint(1, 4), stream.DAMAGE, rate=r.choice([0.2, 0.7]), max_ops=r.choice([2, 4, 10]),
                      given=1.0, trunc=0.2, misfile=0.0)
    for m in case["msgs"]:
        if r.random() < 0.1:
            m["year"], m["month"] = r.randint(1900, 2100), r.randint(1, 12)
        t = stream.instant(m["issue"])
        clocks = []
        for _ in range(r.randint(2, 4)):
            p = r.random()
            if p < 0.3:
                at = t + stream.TD(minutes=r.randint(-120, 3000))
            elif p < 0.6:
                at = world.random_instant(r, max(1971, t.year - 1), t.year + 2)
            else:
                at = world.random_instant(r, 1971, 2090)
            c = {"at": stream.us_of(at) + r.randint(0, 59999999), "tz": r.choice([0, 0, -720, 840, 330, -210]),
                 "tick": r.choice([0, 0, 1000, 3600000000]), "script": []}
            if r.random() < 0.4:
                c["script"] = [[r.randint(1, 12), r.choice([-1, 1]) * r.choice([1, 3600, 86400, 86400 * 31, 86400 * 400])
                                * 1000000] for _ in range(r.randint(1, 3))]
            clocks.append(c)
        m["clocks"] = clocks
    return case


def receive(case):
    out, held = [], []
    for at, n, m in stream.arrivals(case):
        req, _, _ = stream.request(m)
        if not req["text"]:
            out.append(None)
            continue
        res = []
        for c in m["clocks"]:
            boot.CLOCK.set(c["at"], c["tz"], c["script"], c["tick"])
            try:
                rep = observe.decode(boot.LIB, req["kind"], req["text"], req["year"], req["month"], req["truncate"])
            except Exception as e:
                res.append({"raised": observe.exc(e)})
                continue
            o = {"report": observe.snapshot(rep)}
            res.append(o)
            held.append((len(out), len(res) - 1, rep, o))
        out.append(res)
    changed = []
    boot.CLOCK.set(boot.CLOCK.us + 86400 * 1000000 * 45, 60, [], 1000000)
    for i, j, rep, o in held:
        now = observe.snapshot(rep)
        if now != o["report"]:
            changed.append((i, j, observe.diff_text(o["report"], now)))
    return out, changed


def run(case, fork):
    outs = fork(receive, case)
    res = {"faults": {}, "counts": {}, "sim_s": stream.sim_seconds(case), "viol": None,
           "measures": {"texts": set(), "outcomes": set()}}
    if died(outs):
        res["viol"] = {"clause": outs["!died"].split()[0], "detail": outs["!died"]}
        return res
    outs, changed = outs
    log = []
    evs = stream.arrivals(case)
    for k, ((at, n, m), o) in enumerate(zip(evs, outs)):
        if o is None:
            continue
        req, us, fired = stream.request(m)
        stream.add(res["faults"], fired)
        stream.add(res["faults"], {"other-clock": len(o) - 1, "clock-step": sum(len(c["script"]) for c in m["clocks"])})
        log.append(observe.digest(o))
        res["measures"]["texts"].add(observe.digest(req)[:12])
        res["measures"]["outcomes"].add(log[-1][:12])
        if res["viol"]:
            continue
        say = lambda clause, d: res.update(viol={"clause": clause, "detail": "%s: %s" % (stream.describe(m, req), d)})
        for j, x in enumerate(o):
            if x != o[0]:
                a, b = m["clocks"][0], m["clocks"][j]
                say("clock", "clock %s zone %+d and clock %s zone %+d: %s" % (
                    boot.from_us(a["at"]), a["tz"], boot.from_us(b["at"]), b["tz"], observe.diff_text(o[0], x)))
                break
            if "report" in x:
                t = x["report"]["time"]
                if (t["year"], t["month"]) != (req["year"], req["month"]) or \
                        not t["time"]["!t"].startswith("%04d-%02d" % (req["year"], req["month"])):
                    say("date", "dated %s" % t["time"]["!t"])
                    break
        for i, j, d in changed:
            if i == k and not res["viol"]:
                say("changed", "after the clock moved on the report reads differently: %s" % d)
    res["key"] = observe.digest(log)
    res["log"] = observe.digest(log)
    res["sample"] = [stream.describe(m) for _, _, m in evs[:2]]
    return res


def shrink(case):
    yield from stream.shrink(case)
    for i, m in enumerate(case["msgs"]):
        put = lambda m2: dict(case, msgs=case["msgs"][:i] + [m2] + case["msgs"][i + 1:])
        cs = m["clocks"]
        if len(cs) > 1:
            for j in range(len(cs)):
                yield put(dict(m, clocks=cs[:j] + cs[j + 1:]))
        for j, c in enumerate(cs):
            for k, v in (("script", []), ("tick", 0), ("tz", 0)):
                if c[k]:
                    yield put(dict(m, clocks=cs[:j] + [dict(c, **{k: v})] + cs[j + 1:]))
