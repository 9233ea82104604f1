"""C25  A stored or copied report says what the original said."""
import base64
import copy
import json
import os
import pickle
import subprocess
import sys

from .. import boot, history, observe, stream, world
from ..runner import HarnessError, ROOT, died, drop_one

RUNS = (3000, 50000)
LEVEL = "exploration"
STUBS = stream.STUBS
ASSUMPTIONS = ["reports are stored with the standard pickle and copy modules and read by the same version of the code"]
RULE = ("A run decodes 1 to 4 reports (half of them after link faults) and sends them on a random journey of up to 5 "
        "processes with their own clocks and time zones: pickled under any protocol, copied shallow or deep, read, and "
        "the originals modified or dropped on the way; one in 40 runs ends in a newly started interpreter with another "
        "hash seed and date. At the end every report must read as in the process that decoded it. Non-trivial: always; "
        "distinct by the digest of texts and journeys.")
HOW = ["copy", "deepcopy", "pickle", "read", "modify-original", "deepcopy-all"]


def gen(seed, i, tier):
    r = world.new_rng(seed, "C25", i)
    src = history.Source(r, damage=0.5)
    qs = []
    for _ in range(r.choice([1, 1, 2, 4])):
        q = src.fresh()
        q["truncate"] = r.random() < 0.2
        qs.append(q)
    hops = []
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        ops = [[r.choice(HOW), r.randrange(len(qs)), r.randint(0, pickle.HIGHEST_PROTOCOL), r.choice(history.SPOILS)]
               for _ in range(r.choice([0, 1, 3, 6]))]
        hops.append({"at": stream.us_of(world.random_instant(r, 1975, 2085)), "tz": r.choice([0, 0, 330, -600]),
                     "ops": ops, "proto": r.randint(0, pickle.HIGHEST_PROTOCOL)})
    case = {"qs": qs, "hops": hops, "fresh": None}
    if i % 40 == 11:
        case["fresh"] = {"hashseed": r.randint(1, 4000000), "import_us": stream.us_of(world.random_instant(r))}
    return case


def decoded(q):
    """The report, or the strict failure, which travels just the same."""
    try:
        return history.decode(q)
    except Exception as e:
        return e


def look(x):
    return {"raised": observe.exc(x)} if isinstance(x, Exception) else {"report": observe.snapshot(x)}


def hop(case, n, blob):
    """One process of the journey.  -> ("ok", bytes for the next) or ("bad", what)."""
    h = case["hops"][n]
    try:
        what = "decoding"
        if n == 0:
            reps = [decoded(q) for q in case["qs"]]
            boot.CLOCK.set(h["at"], h["tz"])
        else:
            boot.CLOCK.set(h["at"], h["tz"])
            what = "unpickling"
            reps = pickle.loads(blob)
        for how, k, proto, spoil in h["ops"]:
            k %= len(reps)
            what = how
            if how == "copy":
                reps[k] = copy.copy(reps[k])
            elif how == "deepcopy":
                reps[k] = copy.deepcopy(reps[k])
            elif how == "deepcopy-all":
                reps = copy.deepcopy(reps)
            elif how == "pickle":
                what = "pickle protocol %d" % proto
                reps[k] = pickle.loads(pickle.dumps(reps[k], proto))
            elif how == "read":
                look(reps[k])
            else:
                old = reps[k]
                reps[k] = copy.deepcopy(old)
                history.spoil(old, spoil)
                del old
        what = "pickle protocol %d" % h["proto"]
        return "ok", pickle.dumps(reps, h["proto"])
    except Exception as e:
        return "bad", "%s in process %d: %s: %s" % (what, n + 1, type(e).__name__, str(e)[:300])


def last(blob):
    try:
        return [look(rep) for rep in pickle.loads(blob)]
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def fresh(job, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, "-B", "-s", os.path.join(ROOT, "sim", "fresh.py")], env=env,
                       input=json.dumps(job).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise HarnessError(p.stderr.decode()[-2000:])
    return json.loads(p.stdout)


def run(case, fork):
    res = {"faults": {}, "counts": {"processes": len(case["hops"]) + 1}, "viol": None, "measures": {"texts": set()}}
    ats = [h["at"] for h in case["hops"]] + [q["at"] for q in case["qs"]]
    res["sim_s"] = (max(ats) - min(ats)) / 1e6
    bases = [fork(history.outcome, q) for q in case["qs"]]
    for q in case["qs"]:
        res["measures"]["texts"].add(observe.digest(q)[:12])
    res["log"] = res["key"] = observe.digest([case["qs"], case["hops"], [observe.digest(b) for b in bases]])
    res["sample"] = [history.show(q) for q in case["qs"]]
    names = " | ".join(history.show(q) for q in case["qs"])
    if any(died(b) for b in bases):
        res["viol"] = {"clause": "not-decoded", "detail": "%s: %r" % (names, bases)}
        return res
    blob = b""
    for n, h in enumerate(case["hops"]):
        out = fork(hop, case, n, blob)
        stream.add(res["faults"], {"restart": 1})
        for op in h["ops"]:
            stream.add(res["faults"], {op[0]: 1})
        if died(out):
            out = ("bad", "process %d: %s" % (n + 1, out["!died"]))
        if out[0] == "bad":
            res["viol"] = {"clause": "cannot", "detail": "%s: %s" % (names, out[1])}
            return res
        blob = out[1]
    if case["fresh"]:
        got = fresh({"import_us": case["fresh"]["import_us"], "stored": base64.b64encode(blob).decode()},
                    case["fresh"]["hashseed"])
        stream.add(res["faults"], {"new-interpreter": 1})
        bases = json.loads(json.dumps(bases))
    else:
        got = fork(last, blob)
    if died(got) or isinstance(got, str):
        res["viol"] = {"clause": "cannot", "detail": "%s: reading in the last process: %s" % (
            names, got if isinstance(got, str) else got["!died"])}
        return res
    for q, b, g in zip(case["qs"], bases, got):
        if b != g:
            res["viol"] = {"clause": "differs", "detail": "%s reads differently in the last process: %s" % (
                history.show(q), observe.diff_text(b, g))}
            break
    return res


def shrink(case):
    if case["fresh"]:
        yield dict(case, fresh=None)
    for hs in drop_one(case["hops"], 1):
        yield dict(case, hops=hs)
    for j in range(len(case["qs"])):
        if len(case["qs"]) > 1:
            yield dict(case, qs=case["qs"][:j] + case["qs"][j + 1:])
        for q in history.shrink_q(case["qs"][j]):
            yield dict(case, qs=case["qs"][:j] + [q] + case["qs"][j + 1:])
    for n, h in enumerate(case["hops"]):
        for ops in drop_one(h["ops"]):
            yield dict(case, hops=case["hops"][:n] + [dict(h, ops=ops)] + case["hops"][n + 1:])
