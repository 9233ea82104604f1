"""C01  Concurrent decodes are isolated from one another."""
from .. import boot, conc, history, observe, stream, wire, world
from ..runner import died, drop_one

RUNS = (1600, 30000)
LEVEL = "exploration"
STUBS = stream.STUBS + "; the thread scheduler (one thread runs at a time, switches at lines or bytecodes of the library)"
ASSUMPTIONS = ["threads switch between lines or bytecodes of the library, as under the interpreter's global lock; "
               "switches inside the standard library are not made",
               "threads wait for one another only through locks of the threading module, if at all"]
RULE = ("A run starts 2 to 4 caller threads in a pristine process, each of which decodes 1 to 3 reports (near-duplicates "
        "of each other, a third after link faults, both modes); the run's seed decides every switch; every outcome must "
        "be that of decoding the text alone. Non-trivial: at least one switch inside a decode; distinct by the digest "
        "of the texts and of the sequence of switches (from, to, place).")


def gen(seed, i, tier):
    r = world.new_rng(seed, "C01", i)
    src = history.Source(r, damage=0.35)
    if r.random() < 0.85:
        src.pool.stations = r.sample(world.EARLY, 2)
    n = r.choice([2, 2, 2, 3, 4])
    threads = []
    same = r.random() < 0.25
    at = stream.us_of(src.t) + 7000000
    for k in range(n):
        qs = [dict(src(), at=at, tz=0) for _ in range(r.choice([1, 1, 2, 3]))]
        if same and k:
            qs = [dict(q) for q in threads[0]["qs"]]
        threads.append({"qs": qs, "look": r.random() < 0.25})
    return {"at": at, "threads": threads, "sched": conc.g_schedule(r, n, 1500)}


def live(case):
    boot.CLOCK.set(case["at"], 0)

    def work(t):
        def go():
            out = []
            for q in t["qs"]:
                try:
                    rep = observe.decode(boot.LIB, q["kind"], q["text"], q["year"], q["month"], q["truncate"])
                except Exception as e:
                    out.append({"raised": observe.exc(e)})
                    continue
                out.append({"report": observe.snapshot(rep)} if t["look"] else rep)
            return out
        return go

    results, switches, points, trace, dead = conc.run([work(t) for t in case["threads"]], case["sched"])
    outs = []
    for st, v in results:
        if st == "ok":
            outs.append(["ok", [o if isinstance(o, dict) else {"report": observe.snapshot(o)} for o in v]])
        else:
            outs.append([st, observe.exc(v) if isinstance(v, BaseException) else None])
    return outs, switches, points, trace, dead


def run(case, fork):
    res = {"faults": {}, "counts": {}, "sim_s": 0.0, "viol": None,
           "measures": {"texts": set(), "switch-places": set(), "interleavings": set()}}
    got = fork(live, case, cpu=60)
    if died(got):
        res["viol"] = {"clause": got["!died"].split()[0], "detail": "%s: %s" % (got["!died"], [
            [history.show(q) for q in t["qs"]] for t in case["threads"]])}
        res["log"] = "died"
        res["switches"] = case["sched"].get("switches", [])
        return res
    outs, switches, points, trace, dead = got
    res["switches"] = switches
    base = {}
    log = []
    for k, (t, (st, os_)) in enumerate(zip(case["threads"], outs)):
        if st != "ok":
            log.append([st, os_])
            if not res["viol"]:
                res["viol"] = {"clause": st, "detail": "thread %d decoding %s: %s %r" % (
                    k, [history.show(q) for q in t["qs"]], st, os_)}
            continue
        for q, o in zip(t["qs"], os_):
            key = observe.digest(q)
            if key not in base:
                base[key] = fork(history.outcome, dict(q, at=case["at"], tz=0))
            log.append(observe.digest(o))
            res["measures"]["texts"].add(key[:12])
            if o != base[key] and not res["viol"]:
                res["viol"] = {"clause": "mixed", "detail": "thread %d of %d, %s after %d switches: %s" % (
                    k, len(outs), history.show(q), len(switches), observe.diff_text(base[key], o))}
    stream.add(res["faults"], {"switch": len(switches)})
    stream.add(res["counts"], {"points": points, "decodes": sum(len(t["qs"]) for t in case["threads"]),
                               ("fine" if case["sched"]["fine"] else "lines"): 1})
    inter = observe.digest([conc.interleaving(trace), case["threads"]])
    for a, b, h in trace:
        res["measures"]["switch-places"].add(h)
    res["measures"]["interleavings"].add(observe.digest(conc.interleaving(trace))[:12])
    res["log"] = observe.digest([log, inter])
    res["key"] = inter if trace else None
    res["sample"] = {"texts": [[history.show(q) for q in t["qs"]] for t in case["threads"]], "switches": switches[:12]}
    return res


explicit = conc.explicit


def shrink(case):
    ts = case["threads"]
    if len(ts) > 2:
        for j in range(len(ts)):
            yield dict(case, threads=ts[:j] + ts[j + 1:], sched=dict(case["sched"], first=0))
    yield from conc.shrink_schedule(case)
    for j, t in enumerate(ts):
        put = lambda t2: dict(case, threads=ts[:j] + [t2] + ts[j + 1:])
        if len(t["qs"]) > 1:
            for n in range(len(t["qs"])):
                yield put(dict(t, qs=t["qs"][:n] + t["qs"][n + 1:]))
        for n, q in enumerate(t["qs"]):
            for q2 in history.shrink_q(q):
                yield put(dict(t, qs=t["qs"][:n] + [q2] + t["qs"][n + 1:]))
        if t["look"]:
            yield put(dict(t, look=False))
