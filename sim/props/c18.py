"""C18  How a relay lays out the text does not matter."""
from .. import boot, observe, stream, wire, world
from ..runner import died

RUNS = (4000, 60000)
LEVEL = "exploration"
STUBS = stream.STUBS
ASSUMPTIONS = ["blanks, tabs, carriage returns, line feeds, vertical tabs and form feeds separate groups",
               "'=' is the end-of-message sign"]
RULE = ("A run is a stream of 1 to 5 reports (most of them after link faults), each received over 2 to 4 routes that "
        "lay the same words out differently and decoded in both modes in one process; all outcomes of a report must "
        "be equal. Non-trivial: at least two different layouts; distinct by the digest of all decoded outcomes.")
BLANK = " \t\n\r\x0b\x0c"


def gen(seed, i, tier):
    r = world.new_rng(seed, "C18", i)
    case = stream.gen(r, r.randint(1, 5), stream.DAMAGE, rate=r.choice([0.2, 0.7]), max_ops=r.choice([2, 4, 10]),
                      layouts=0.0)
    for m in case["msgs"]:
        n = len(words_of(m))
        m["routes"] = [wire.g_layout(r, n) for _ in range(r.randint(1, 3))]
    return case


def words_of(m):
    return stream.request(m)[0]["text"].replace("=", " ").split()


def route_texts(m):
    ws = words_of(m)
    return [" ".join(ws)] + [wire.layout_text(ws, lay) for lay in m["routes"]]


def receive(case):
    out = []
    for at, n, m in stream.arrivals(case):
        req, _, _ = stream.request(m)
        if not words_of(m):
            out.append(None)
            continue
        res = []
        for t in route_texts(m):
            for strict in (False, True):
                boot.CLOCK.set(at, case["tz_min"])
                o = observe.outcome(boot.LIB, dict(req, text=t, truncate=strict))
                res.append(o)
        out.append(res)
    return out


def run(case, fork):
    outs = fork(receive, case)
    res = {"faults": {}, "counts": {}, "sim_s": stream.sim_seconds(case), "viol": None,
           "measures": {"texts": set(), "outcomes": set()}}
    if died(outs):
        res["viol"] = {"clause": outs["!died"].split()[0], "detail": outs["!died"]}
        return res
    log = []
    for (at, n, m), o in zip(stream.arrivals(case), outs):
        if o is None:
            continue
        req, us, fired = stream.request(m)
        stream.add(res["faults"], fired)
        ts = route_texts(m)
        stream.add(res["faults"], {"relayout": len([t for t in ts[1:] if t != ts[0]])})
        log.append(observe.digest(o))
        for t in ts:
            res["measures"]["texts"].add(observe.digest(t)[:12])
        res["measures"]["outcomes"].add(log[-1][:12])
        for j, x in enumerate(o):
            if x != o[j % 2] and not res["viol"]:
                res["viol"] = {"clause": "strict" if j % 2 else "default", "detail": "%s and the layout %r: %s" % (
                    stream.describe(dict(m, layout=None), dict(req, text=ts[0])), ts[j // 2],
                    observe.diff_text(o[j % 2], x))}
                break
    res["key"] = observe.digest(log) if res["faults"] else None
    res["log"] = observe.digest(log)
    res["sample"] = [route_texts(m)[-1] for _, _, m in stream.arrivals(case)[:2]]
    return res


def shrink(case):
    yield from stream.shrink(case)
    for i, m in enumerate(case["msgs"]):
        put = lambda m2: dict(case, msgs=case["msgs"][:i] + [m2] + case["msgs"][i + 1:])
        rs = m["routes"]
        if len(rs) > 1:
            for j in range(len(rs)):
                yield put(dict(m, routes=rs[:j] + rs[j + 1:]))
        for j, lay in enumerate(rs):
            def with_(l2):
                return put(dict(m, routes=rs[:j] + [l2] + rs[j + 1:]))
            for k in ("head", "tail"):
                if lay[k]:
                    yield with_(dict(lay, **{k: ""}))
            if any(s != " " for s in lay["seps"]):
                yield with_(dict(lay, seps=[" "]))
                for n in range(len(lay["seps"])):
                    if lay["seps"][n] != " ":
                        yield with_(dict(lay, seps=lay["seps"][:n] + [" "] + lay["seps"][n + 1:]))
