"""C26  A receiver that decodes forever does not grow."""
import gc
import sys

from .. import boot, history, observe, stream, world
from ..runner import died

RUNS = (32, 600)
LEVEL = "exploration"
STUBS = stream.STUBS
ASSUMPTIONS = [
    "memory is counted in the interpreter's own blocks after a full collection",
    "a cache that is full after 2,000 reports (some 16,000 groups) is not growth",
]
RULE = ("A run is one receiver process that decodes a long stream of ever new reports from a few stations over weeks "
        "to years of simulated time, with link faults, strict failures, interrupted decodes, reads and modified "
        "answers as the run's seed says, and drops them. Between one third and the end of the stream the process may "
        "not keep gaining memory, not even one block per 20 reports. Non-trivial: always; distinct by the digest of the stream.")
LENGTH = 6000
SLACK = 60


def gen(seed, i, tier):
    r = world.new_rng(seed, "C26", i)
    n = LENGTH * (r.choice([1, 1, 2, 4]) if tier == "thorough" else 1)
    return {"seed": r.getrandbits(48), "n": n, "kinds": r.choice([["Metar"], ["Taf"], ["Metar", "Taf"]]),
            "damage": r.choice([0.0, 0.3, 1.0]), "strict": r.choice([0.0, 0.2, 1.0]),
            "fail": r.choice([0, 0, 5, 20]), "read": r.choice([0.0, 0.1, 0.4]), "spoil": r.choice([0.0, 0.1]),
            "hold": r.choice([0, 1, 50]), "step_s": r.choice([60, 3600, 86400])}


def size():
    for _ in range(2):
        gc.collect()
    return sys.getallocatedblocks()


def stream_of(case):
    """Everything that happens, laid out before the receiver starts: the simulator itself may not grow then."""
    r = world.new_rng(case["seed"], "stream")
    src = history.Source(r, kinds=case["kinds"], damage=case["damage"])
    fails = set(r.sample(range(case["n"]), min(case["fail"], case["n"])))
    at, end, out = stream.us_of(src.t), stream.us_of(boot.RealDatetime(2090, 1, 1)), []
    for k in range(case["n"]):
        q = src.fresh(small=True)
        at += r.randint(0, 2 * case["step_s"]) * 1000000
        q["at"] = at % end
        q["truncate"] = r.random() < case["strict"]
        point = history.g_point(r) if k in fails else 0
        p = r.random()
        out.append((q, point, p < case["read"], p > 1 - case["spoil"] and r.choice(history.SPOILS)))
    return out


def live(case):
    work = stream_of(case)
    digest = observe.digest([w[0]["text"] for w in work])
    marks = {case["n"] // 3: 0, 2 * case["n"] // 3: 1}
    sizes, held, slot = [0, 0, 0], [None] * (case["hold"] + 1), 0
    for q, point, _, _ in work:
        if point:  # the interpreter keeps notes on code that was ever watched: let it take them now
            history.perform({"do": "interrupt", "q": q, "point": None, "exc": "KeyboardInterrupt"}, [])
    for k, (q, point, read, spoil) in enumerate(work):
        if k in marks:
            held[:] = [None] * len(held)
            sizes[marks[k]] = size()
        if point:
            history.perform({"do": "interrupt", "q": q, "point": point, "exc": "KeyboardInterrupt"},
                            [])
            continue
        try:
            rep = history.decode(q)
        except Exception:
            continue
        if read:
            observe.snapshot(rep)
        if spoil:
            history.spoil(rep, spoil)
        held[slot] = rep
        slot = (slot + 1) % len(held)
        rep = None
    held[:] = [None] * len(held)
    sizes[2] = size()
    return sizes, digest


def run(case, fork):
    out = fork(live, case, cpu=400, wall=600)
    res = {"faults": {k: case[k] for k in ("fail",) if case[k]}, "counts": {"decodes": case["n"]}, "viol": None,
           "sim_s": float(case["n"] * case["step_s"]), "measures": {}}
    if case["damage"]:
        res["faults"]["link-damage"] = int(case["n"] * case["damage"])
    if case["strict"]:
        res["faults"]["strict-failures"] = 1
    if died(out):
        res["viol"] = {"clause": out["!died"].split()[0], "detail": "%s while decoding %d reports of stream %d" % (
            out["!died"], case["n"], case["seed"])}
        res["log"] = "died"
        return res
    sizes, d = out
    third = case["n"] // 3
    res["counts"]["worst-gain"] = max(0, sizes[2] - sizes[1])
    gains = [sizes[1] - sizes[0], sizes[2] - sizes[1]]
    if min(gains) > third // 20 + SLACK:
        res["viol"] = {"clause": "grows", "detail": "%d decodes of ever new reports (stream %d) left %d and %d memory "
                       "blocks more in use per %d reports, and the growth does not stop" % (
                           case["n"], case["seed"], gains[0], gains[1], third)}
    res["log"] = res["key"] = d
    res["sample"] = ["stream %d" % case["seed"], repr(sizes)]
    return res


def shrink(case):
    for k in ("fail", "hold"):
        if case[k]:
            yield dict(case, **{k: 0})
    for k in ("damage", "strict", "read", "spoil"):
        if case[k]:
            yield dict(case, **{k: 0.0})
    if len(case["kinds"]) > 1:
        for k in case["kinds"]:
            yield dict(case, kinds=[k])
    if case["n"] > 600:
        yield dict(case, n=case["n"] // 2)
