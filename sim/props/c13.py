"""C13  Strict mode rejects exactly the reports with unparsed groups."""
from .. import boot, observe, stream, wire, world
from ..runner import died

RUNS = (5000, 80000)
LEVEL = "exploration"
STUBS = stream.STUBS
ASSUMPTIONS = ["the text is ASCII and not empty",
               "the parser error is the exception type ParserError of aeromet_py"]
RULE = ("A run is a stream of 1 to 6 reports after link faults drawn from the run's seed; each is decoded in the "
        "default and in the strict mode, in either order, in one process at one instant (strict failures may come "
        "between). Non-trivial: at least one fault fired; distinct by the digest of all decoded outcomes.")


def gen(seed, i, tier):
    r = world.new_rng(seed, "C13", i)
    kinds = r.choice([stream.DAMAGE, stream.DAMAGE, ["noise", "garble", "dup"], ["lose", "garble", "swap"]])
    case = stream.gen(r, r.randint(1, 6), list(kinds), rate=r.choice([0.5, 0.9]), max_ops=r.choice([2, 3, 6, 12]))
    for m in case["msgs"]:
        m["strict_first"] = r.random() < 0.5
    return case



def receive(case):
    out = []
    for at, n, m in stream.arrivals(case):
        req, _, _ = stream.request(m)
        if not req["text"]:
            out.append(None)
            continue
        got = {}
        for strict in ((True, False) if m["strict_first"] else (False, True)):
            boot.CLOCK.set(at, case["tz_min"])
            got[strict] = observe.outcome(boot.LIB, dict(req, truncate=strict))
        out.append((got[False], got[True]))
    return out


def named(msg, raw, unparsed):
    """Whether the message names the report and, apart from it, every unparsed group."""
    if raw not in msg:
        return "the message %r does not contain the report %r" % (msg, raw)
    rest = msg.replace(raw, " ", 1)
    for g in sorted(unparsed, key=len, reverse=True):
        i = rest.find(g)
        if i < 0:
            return "the message %r does not name the unparsed group %r" % (msg, g)
        rest = rest[:i] + rest[i + len(g):]
    return None


def judge(lenient, strict):
    if "raised" in lenient:
        return "default-raised", "the default mode raised %r" % lenient["raised"]
    rep = lenient["report"]
    un = rep["unparsed_groups"]
    if un:
        if "raised" not in strict:
            return "accepted", "unparsed groups %r but strict mode accepted the report" % un
        e = strict["raised"]
        if e["!exc"] != "ParserError":
            return "wrong-error", "unparsed groups %r but strict mode raised %r" % (un, e)
        bad = named(e["msg"], rep["raw_code"], un)
        if bad:
            return "unnamed", bad
    else:
        if "raised" in strict:
            return "rejected", "no unparsed groups but strict mode raised %r" % strict["raised"]
        if strict["report"] != rep:
            return "differs", observe.diff_text(rep, strict["report"])
    return None


def run(case, fork):
    outs = fork(receive, case)
    res = {"faults": {}, "counts": {}, "sim_s": stream.sim_seconds(case), "viol": None,
           "measures": {"texts": set(), "outcomes": set()}}
    if died(outs):
        res["viol"] = {"clause": outs["!died"].split()[0], "detail": outs["!died"]}
        return res
    log = []
    for (at, n, m), o in zip(stream.arrivals(case), outs):
        if o is None:
            continue
        req, us, fired = stream.request(m)
        stream.add(res["faults"], fired)
        log.append(observe.digest(o))
        res["measures"]["texts"].add(observe.digest(req)[:12])
        res["measures"]["outcomes"].add(log[-1][:12])
        stream.add(res["counts"], {"rejected" if "raised" in o[1] else "accepted": 1})
        if not res["viol"]:
            v = judge(*o)
            if v:
                res["viol"] = {"clause": v[0], "detail": "%s: %s" % (stream.describe(m, req), v[1])}
    res["key"] = observe.digest(log) if res["faults"] else None
    res["log"] = observe.digest(log)
    res["sample"] = [stream.describe(m) for _, _, m in stream.arrivals(case)[:2]]
    return res


shrink = stream.shrink
