"""C02  Decoding leaves no trace on later decodes."""
import json
import os
import subprocess
import sys

from .. import boot, history, observe, stream, world
from ..runner import HarnessError, ROOT, died, drop_one

RUNS = (1000, 16000)
LEVEL = "exploration"
STUBS = stream.STUBS
ASSUMPTIONS = ["a given year is between 1900 and 2100",
               "callers modify the lists and dictionaries they get, not the private state of the objects"]
RULE = ("A run is one receiver process with a history of 3 to 40 steps (one in 25 runs: 400 to 1,500; one in 250: 4,000 to 7,000 reports of 280 stations) - decodes of "
        "near-duplicate reports, strict failures, decodes and reads broken off by an exception at a random "
        "point, reads, callers that modify returned lists and dictionaries - in which several decodes are compared "
        "with the same decode in a pristine process; one in 50 runs repeats them in a newly started interpreter with "
        "another hash seed, other options (optimised, warnings as errors), locale and zone, imported on another date. Non-trivial: always; distinct by the digest of all "
        "compared outcomes.")


FLAGS = [[], [], ["-O"], ["-OO"], ["-W", "error"], ["-X", "utf8"], ["-X", "dev"]]
ENV = [("LC_ALL", "C"), ("LC_ALL", "C.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("PYTHONIOENCODING", "ascii"),
       ("TZ", "Pacific/Kiritimati"), ("PYTHONMALLOC", "debug")]


def gen(seed, i, tier):
    r = world.new_rng(seed, "C02", i)
    src = history.Source(r)
    far = i % 250 == 99
    long = i % 25 == 24 or far
    n = r.randint(400, 1500) if long else r.randint(3, 40)
    if far:  # a receiver of a whole network, for days
        n = r.randint(4000, 7000)
        src.pool.stations = world.MANY
        src.pool.reuse = r.choice([0.0, 0.3])
    ops = []
    for _ in range(n):
        op = history.g_op(r, src, small=long)
        if long and op["do"] in ("interrupt", "cut-read"):
            op = {"do": "decode", "q": src(True), "look": False}
        if long:
            op.pop("look", None)
        ops.append(op)
    decodes = [k for k, op in enumerate(ops) if op["do"] == "decode"]
    for k in (r.sample(decodes[-20:], min(3, len(decodes[-20:]))) if decodes else []):
        ops[k]["probe"] = ops[k]["look"] = True
    for _ in range(2):
        ops.append({"do": "decode", "q": src(), "look": True, "probe": True})
    if r.random() < 0.5:
        ops.append({"do": "decode", "q": r.choice(src.old), "look": True, "probe": True})
    case = {"ops": ops, "fresh": None}
    if i % 50 == 7:
        case["fresh"] = {"hashseed": r.randint(1, 4000000), "import_us": stream.us_of(world.random_instant(r)),
                         "flags": r.choice(FLAGS), "env": dict([r.choice(ENV)])}
    return case


def live(ops):
    held, out = [], []
    for op in ops:
        o = history.perform(op, held)
        out.append(o if op.get("probe") else None)
    return out


def fresh(job, hashseed, flags=(), env=None):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), **(env or {}))
    p = subprocess.run([sys.executable, "-B", "-s"] + list(flags) + [os.path.join(ROOT, "sim", "fresh.py")], env=env,
                       input=json.dumps(job).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise HarnessError(p.stderr.decode()[-2000:])
    return json.loads(p.stdout)


def run(case, fork):
    ops = case["ops"]
    outs = fork(live, ops, cpu=60 if len(ops) < 2000 else 200, wall=300)
    ats = [op["q"]["at"] for op in ops if "q" in op] or [0]
    res = {"faults": {}, "counts": {"probes": 0, "steps": len(ops)}, "sim_s": (max(ats) - min(ats)) / 1e6,
           "viol": None, "measures": {"texts": set(), "outcomes": set(), "interrupt-points": set()}}
    for op in ops:
        k = op["do"]
        if k != "decode":
            stream.add(res["faults"], {k + ("-" + op["how"] if k == "spoil" else ""): 1})
        if k == "interrupt":
            res["measures"]["interrupt-points"].add("%d" % op["point"])
    if died(outs):
        res["viol"] = {"clause": outs["!died"].split()[0], "detail": "%s in the history" % outs["!died"]}
        res["log"] = "died"
        return res
    log, ask = [], []
    for n, (op, o) in enumerate(zip(ops, outs)):
        if not op.get("probe"):
            continue
        q = op["q"]
        base = fork(history.outcome, q)
        res["counts"]["probes"] += 1
        d = observe.digest(o)
        log.append(d)
        ask.append((q, observe.digest(base)))
        res["measures"]["texts"].add(observe.digest(q)[:12])
        res["measures"]["outcomes"].add(d[:12])
        if o != base and not res["viol"]:
            res["viol"] = {"clause": "history", "detail": "%s after %d steps: %s" % (
                history.show(q), n, observe.diff_text(base, o))}
    if case["fresh"] and not res["viol"]:
        got = fresh({"import_us": case["fresh"]["import_us"], "requests": [q for q, _ in ask]},
                    case["fresh"]["hashseed"], case["fresh"]["flags"], case["fresh"]["env"])
        stream.add(res["faults"], {"restart": 1})
        for (q, d), g in zip(ask, got if isinstance(got, list) else [got] * len(ask)):
            if d != g and not res["viol"]:
                res["viol"] = {"clause": "restart", "detail": "%s gives another report in a process started on %s with "
                               "hash seed %d, options %r and environment %r" % (
                                   history.show(q), boot.from_us(case["fresh"]["import_us"]),
                                   case["fresh"]["hashseed"], case["fresh"]["flags"], case["fresh"]["env"])}
    res["log"] = observe.digest(log)
    res["key"] = res["log"]
    res["sample"] = [history.show(q) for q, _ in ask[:2]]
    return res


def shrink(case):
    ops = case["ops"]
    for xs in drop_one(ops, 1):
        if any(op.get("probe") for op in xs):
            yield dict(case, ops=xs)
    for n, op in enumerate(ops):
        put = lambda o2: dict(case, ops=ops[:n] + [o2] + ops[n + 1:])
        if op.get("probe") and sum(1 for o in ops if o.get("probe")) > 1:
            yield put({k: v for k, v in op.items() if k != "probe"})
        if op["do"] == "decode" and op.get("look") and not op.get("probe"):
            yield put(dict(op, look=False))
        if "q" in op:
            for q in history.shrink_q(op["q"]):
                yield put(dict(op, q=q))
    if case["fresh"]:
        yield dict(case, fresh=None)
        if case["fresh"]["flags"]:
            yield dict(case, fresh=dict(case["fresh"], flags=[]))
        if case["fresh"]["env"]:
            yield dict(case, fresh=dict(case["fresh"], env={}))
