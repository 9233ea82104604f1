"""C31  A process may decode from its first moment to its last."""
import json
import os
import subprocess
import sys

from .. import history, observe, stream, world
from ..runner import ROOT, died, drop_one

RUNS = (500, 12000)
LEVEL = "fault_enumeration"
STUBS = stream.STUBS
ASSUMPTIONS = ["the interpreter's own modules are still there: decodes in finalisers that run while the interpreter takes its "
               "modules down are left out, as strptime() itself then fails"]
RULE = ("A run is the life of one newly started interpreter: the library is imported first of all, in another thread, or by the first "
        "decode; 1 to 8 times it decodes 1 to 3 reports and reads those it holds: in the main or another thread, a thread that "
        "outlives the main one, a task, a context of its own, a signal handler, a finaliser, while traced or profiled, while "
        "garbage is collected all the time or never, after caches were purged, when an exception was not caught, and in exit "
        "handlers; and it ends by return, exit, exception or interrupt. Each outcome is that of a pristine process. "
        "Non-trivial: any moment but the main thread's; distinct by the digest of moments and texts.")
WHEN = ["main", "main", "thread", "thread", "outlives", "outlives", "atexit", "atexit", "atexit", "uncaught", "signal", "traced",
        "profiled", "task", "context", "finaliser", "collecting", "thrifty", "purged"]


def gen(seed, i, tier):
    r = world.new_rng(seed, "C31", i)
    src = history.Source(r, damage=0.3)
    src.pool.stations = r.sample(world.EARLY, 3)
    n = r.choice([1, 2, 2, 3, 5, 8])
    end = r.choice(["return", "return", "exit", "raises", "interrupt"])
    steps = []
    for k in range(n):
        when = r.choice(WHEN)
        if when == "uncaught" and end in ("return", "exit"):
            end = "raises"
        steps.append({"n": k, "when": when, "qs": [src() for _ in range(r.choice([1, 1, 2, 3]))]})
    return {"import": r.choice(["first", "first", "thread", "late"]), "import_us": stream.us_of(src.t), "steps": steps, "end": end}


def live(case):
    env = dict(os.environ, PYTHONHASHSEED="0", LIFE_JOB=json.dumps(case))
    try:
        p = subprocess.run([sys.executable, "-B", "-s", os.path.join(ROOT, "sim", "life.py")], env=env, timeout=90,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired:
        return None, [], ""
    return p.returncode, [json.loads(x) for x in p.stdout.decode().splitlines()], p.stderr.decode()[-400:]


def run(case, fork):
    res = {"faults": {}, "counts": {}, "sim_s": 0.0, "viol": None, "measures": {"texts": set(), "moments": set()}}
    rc, got, err = live(case)
    want, log = {}, []
    for st in case["steps"]:
        res["measures"]["moments"].add("%s-%s-%s" % (case["import"], st["when"], case["end"]))
        if st["when"] != "main":
            stream.add(res["faults"], {st["when"]: 1})
        for k, q in enumerate(st["qs"]):
            o = fork(history.outcome, q)
            want[st["n"], k] = o if died(o) else observe.digest(o)
            res["measures"]["texts"].add(observe.digest(q)[:12])
    stream.add(res["faults"], {"end-" + case["end"]: 1})
    steps = {st["n"]: st for st in case["steps"]}
    seen = set()

    def bad(clause, n, k, text):
        if not res["viol"]:
            res["viol"] = {"clause": clause, "detail": "%s (%s; library imported %s; process ends by %s): %s" % (
                history.show(steps[n]["qs"][k]), steps[n]["when"], case["import"], case["end"], text)}

    for n, k, d in got:
        w = want[n, k]
        again = (n, k) in seen
        seen.add((n, k))
        log.append([n, k, d])
        if not died(w) and d != w:
            bad("reread" if again else "outcome", n, k, "not what a pristine process says" + (": " + d if ":" in d else ""))
    for n, k in want:
        if (n, k) not in seen:
            bad("silent", n, k, "no outcome, the process %s %s" % (
                "does not end" if rc is None else "ended with %s" % rc, err))
    if rc is None and not res["viol"]:
        bad("endless", case["steps"][-1]["n"], 0, "the process does not end")
    res["counts"]["outcomes"] = len(got)
    res["log"] = observe.digest(log)
    res["key"] = observe.digest([case["import"], case["end"], [[s["when"], s["qs"]] for s in case["steps"]]]) if res["faults"] else None
    res["sample"] = [[case["import"], [s["when"] for s in case["steps"]], case["end"]]]
    return res


def shrink(case):
    for xs in drop_one(case["steps"], 1):
        yield dict(case, steps=xs)
    for i, st in enumerate(case["steps"]):
        put = lambda s: dict(case, steps=case["steps"][:i] + [s] + case["steps"][i + 1:])
        for qs in drop_one(st["qs"], 1):
            yield put(dict(st, qs=qs))
        if st["when"] != "main":
            yield put(dict(st, when="main"))
    if case["import"] != "first":
        yield dict(case, **{"import": "first"})
    if case["end"] != "return" and not any(s["when"] == "uncaught" for s in case["steps"]):
        yield dict(case, end="return")
