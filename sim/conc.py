"""Scheduled runs: the drawing, recording, replaying and minimising of schedules (C01, C04)."""
import random

from . import sched
from .runner import drop_one


def g_schedule(r, nthreads, span):
    fine = r.random() < 0.3
    p = r.random()
    if r.random() < 0.25:
        spec = {"kind": "rare", "p": r.choice([0.02, 0.06, 0.2, 0.6]), "cap": 3000}
    elif p < 0.3:
        mod = r.choice([3, 7, 23, 67])
        spec = {"kind": "func", "mod": mod, "res": r.randrange(mod), "p": r.choice([0.05, 0.2, 0.5, 1.0]),
                "cap": r.choice([20, 300, 2000])}
    elif p < 0.6:
        spec = {"kind": "gaps", "mean": r.choice([1, 2, 4, 10, 40, 200]) * (4 if fine else 1), "cap": r.choice([50, 500, 3000])}
    elif p < 0.8:
        top = span * nthreads * (5 if fine else 1)
        spec = {"kind": "few", "at": sorted(r.randint(1, top) for _ in range(r.choice([1, 1, 2, 3, 6])))}
    else:
        mod = r.choice([5, 17, 61, 151])
        spec = {"kind": "loc", "mod": mod, "res": r.randrange(mod), "cap": r.choice([20, 300, 2000])}
    return {"spec": spec, "rng": r.randrange(1 << 30), "fine": fine, "first": r.randrange(nthreads)}


def make(fns, sc):
    if "switches" in sc:
        policy = sched.Replay(sc["switches"])
    else:
        policy = sched.Policy(dict(sc["spec"]), random.Random(sc["rng"]))
    return sched.Sched(fns, policy, opcodes=sc["fine"])


def run(fns, sc):
    """-> (results, recorded switches, number of points, places of the switches, deadlock)"""
    s = make(fns, sc)
    results = s.run(sc["first"])
    return results, s.recorded, s.points, s.trace, s.deadlock


def explicit(case, res):
    """The same run with its switches written out."""
    return dict(case, sched={"fine": case["sched"]["fine"], "first": case["sched"]["first"],
                             "switches": res["switches"]})


def shrink_schedule(case):
    sc = case["sched"]
    if "switches" not in sc:
        return
    sw = sc["switches"]
    put = lambda x: dict(case, sched=dict(sc, switches=x))
    yield put([])
    for i in range(len(sw)):
        # keep only a beginning
        if i and i & (i - 1) == 0:
            yield put(sw[:i])
    n = len(sw)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            rest = sw[:i] + sw[i + size:]
            if len(rest) < n:
                yield put(rest)
                # the same, with the time of the later switches kept
                if i + size < n:
                    gap = sum(g for g, _ in sw[i: i + size])
                    yield put(sw[:i] + [[sw[i + size][0] + gap, sw[i + size][1]]] + sw[i + size + 1:])
        size //= 2


def interleaving(trace):
    return [[a, b, h] for a, b, h in trace]
