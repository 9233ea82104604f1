"""C04  Concurrent readers of one report agree."""
from .. import boot, conc, history, observe, reading, stream, wire, world
from ..runner import died, drop_one
from . import c01, c03

RUNS = (2400, 40000)
LEVEL = "exploration"
STUBS = c01.STUBS
ASSUMPTIONS = c01.ASSUMPTIONS + ["the readers only read"]
RULE = ("A run decodes one report (a third of them after link faults) in a pristine process and lets 2 to 4 threads read "
        "it, each by its own random program of questions and loops (in half the runs all ask the same few questions), some while another thread decodes a report of its "
        "own; the run's seed decides every switch; every answer must be the one a lone reader gets. Non-trivial: at "
        "least one switch inside a read; distinct by the digest of the text and of the sequence of switches.")


def gen(seed, i, tier):
    r = world.new_rng(seed, "C04", i)
    src = history.Source(r, damage=0.3)
    src.pool.stations = r.sample(world.EARLY, 2)
    q = c03.g_query(r, src)
    n = r.choice([2, 2, 3, 4])
    progs = []
    same = r.random() < 0.3
    hot = [reading.g_program(r, r.choice([1, 1, 2])) for _ in range(r.choice([1, 1, 2]))] if r.random() < 0.5 else None
    for k in range(n):
        size = r.choice([1, 2, 4, 10])
        if hot:
            # all threads ask the same few questions again and again
            p = [dict(st) for _ in range(r.choice([1, 2, 4, 8])) for st in r.choice(hot)]
            progs.append(p)
            continue
        p = reading.g_program(r, size)
        if r.random() < 0.3:
            p.insert(r.randint(0, len(p)), {"do": "all"})
        progs.append([dict(st) for st in progs[0]] if same and k else p)
    decoder = dict(src.near(q) if r.random() < 0.5 else src.fresh(), at=q["at"], tz=q["tz"]) if r.random() < 0.2 else None
    return {"q": q, "progs": progs, "decoder": decoder,
            "sched": conc.g_schedule(r, n + (1 if decoder else 0), r.choice([10, 30, 200, 2000]))}


def live(case, base, dbase):
    q = case["q"]
    try:
        rep = history.decode(q)
    except Exception as e:
        return ["decoding: %s: %s" % (type(e).__name__, e)], [], 0, [], False
    nodes = reading.tree(base)
    fns = []
    for p in case["progs"]:
        fns.append(lambda p=p: reading.Reader(rep, base, nodes).run(p))
    if case["decoder"]:
        def dec():
            d = case["decoder"]
            o = observe.outcome(boot.LIB, d)
            return None if o == dbase else "decoding %s: %s" % (history.show(d), observe.diff_text(dbase, o))
        fns.append(dec)
    results, switches, points, trace, dead = conc.run(fns, case["sched"])
    out = []
    for st, v in results:
        out.append(v if st == "ok" else "%s: %r" % (st, v))
    after = observe.snapshot(rep)
    if after != base:
        out.append("afterwards the report reads differently: %s" % observe.diff_text(base, after))
    return out, switches, points, trace, dead


def run(case, fork):
    res = {"faults": {}, "counts": {}, "sim_s": 0.0, "viol": None, "switches": [],
           "measures": {"texts": set(), "switch-places": set(), "interleavings": set()}}
    base = fork(history.outcome, case["q"])
    dbase = fork(history.outcome, case["decoder"]) if case["decoder"] else None
    if died(base) or "raised" in base:
        res["log"] = observe.digest(base)
        res["key"] = None
        if died(base):
            res["viol"] = {"clause": base["!died"].split()[0], "detail": base["!died"]}
        return res
    got = fork(live, case, base["report"], dbase, cpu=60)
    if died(got):
        res["viol"] = {"clause": got["!died"].split()[0], "detail": "%s while %d threads read %s" % (
            got["!died"], len(case["progs"]), history.show(case["q"]))}
        res["log"] = "died"
        res["switches"] = case["sched"].get("switches", [])
        return res
    out, switches, points, trace, dead = got
    res["switches"] = switches
    for k, c in enumerate(out):
        if c and not res["viol"]:
            res["viol"] = {"clause": "deadlock" if c.startswith("deadlock") else "read",
                           "detail": "%s, thread %d of %d after %d switches: %s" % (
                               history.show(case["q"]), k, len(case["progs"]), len(switches), c)}
    stream.add(res["faults"], {"switch": len(switches)})
    stream.add(res["counts"], {"points": points, "reads": sum(len(p) for p in case["progs"]),
                               ("fine" if case["sched"]["fine"] else "lines"): 1})
    for a, b, h in trace:
        res["measures"]["switch-places"].add(h)
    res["measures"]["interleavings"].add(observe.digest(conc.interleaving(trace))[:12])
    res["measures"]["texts"].add(observe.digest(case["q"])[:12])
    res["log"] = observe.digest([case["q"], conc.interleaving(trace), out])
    res["key"] = res["log"] if trace else None
    res["sample"] = {"text": history.show(case["q"]), "programs": case["progs"], "switches": switches[:12]}
    return res


explicit = conc.explicit


def shrink(case):
    ps = case["progs"]
    if case["decoder"]:
        yield dict(case, decoder=None, sched=dict(case["sched"], first=0))
    if len(ps) > 1:
        for j in range(len(ps)):
            yield dict(case, progs=ps[:j] + ps[j + 1:], sched=dict(case["sched"], first=0))
    yield from conc.shrink_schedule(case)
    for j, p in enumerate(ps):
        for x in drop_one(p, 0):
            yield dict(case, progs=ps[:j] + [x] + ps[j + 1:])
    for q in history.shrink_q(case["q"]):
        yield dict(case, q=q)
