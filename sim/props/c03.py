"""C03  Reading a report never changes what it says."""
from .. import boot, history, observe, reading, stream, wire, world
from ..runner import died, drop_one

RUNS = (4000, 60000)
LEVEL = "exploration"
STUBS = stream.STUBS
ASSUMPTIONS = ["the caller only reads: lists and dictionaries it gets are not modified"]
RULE = ("A run decodes 1 to 3 reports (half of them after link faults) and reads them by a random program of 5 to 120 "
        "reads in which questions, nested loops, loops left open and advanced in turn, and abandoned loops alternate, "
        "across the reports and while the clock moves; every answer must be the one read in a pristine process. "
        "Non-trivial: always; distinct by the digest of texts and programs.")


def g_query(r, src, rich=0.6):
    """Mostly reports with several items in their lists."""
    q = src.fresh()
    for _ in range(3):
        if len(q["text"]) > 60 or r.random() < 0.2:
            break
        q = src.fresh()
    q["truncate"] = False
    return q


def gen(seed, i, tier):
    r = world.new_rng(seed, "C03", i)
    src = history.Source(r, damage=0.4)
    qs = [g_query(r, src) for _ in range(r.choice([1, 1, 2, 3]))]
    prog = []
    for st in reading.g_program(r, r.choice([5, 20, 60, 120])):
        prog.append([r.randrange(len(qs)), st])
        if r.random() < 0.03:
            prog.append([0, {"do": "clock", "us": r.choice([1, 3600, 86400 * 40]) * 1000000}])
    return {"qs": qs, "prog": prog}


def live(case, bases):
    readers = []
    for q, b in zip(case["qs"], bases):
        try:
            readers.append(reading.Reader(history.decode(q), b["report"]) if "report" in b else None)
        except Exception as e:
            return "decoding %s: %s: %s" % (history.show(q), type(e).__name__, e), 0
    for n, (k, st) in enumerate(case["prog"]):
        if st["do"] == "clock":
            boot.CLOCK.advance(st["us"])
            continue
        rd = readers[k % len(readers)]
        if rd is None:
            continue
        try:
            c = rd.step(st)
        except Exception as e:
            c = "%s: %s: %s" % (st["do"], type(e).__name__, e)
        if c:
            return "%s, read %d: %s" % (history.show(case["qs"][k % len(readers)]), n + 1, c), n
    asked = 0
    for q, rd in zip(case["qs"], readers):
        if rd:
            asked += rd.asked
            c = rd.close()
            if not c and observe.snapshot(rd.rep) != rd.base:
                c = "in the end the whole report reads differently: %s" % observe.diff_text(
                    rd.base, observe.snapshot(rd.rep))
            if c:
                return "%s, after all reads: %s" % (history.show(q), c), asked
    return None, asked


def run(case, fork):
    res = {"faults": {}, "counts": {"reads": 0}, "sim_s": 0.0, "viol": None, "measures": {"texts": set()}}
    bases = [fork(history.outcome, q) for q in case["qs"]]
    out = next((b for b in bases if died(b)), None) or fork(live, case, bases)
    if died(out):
        res["viol"] = {"clause": out["!died"].split()[0], "detail": out["!died"]}
        res["log"] = "died"
        return res
    c, asked = out
    res["counts"]["reads"] = asked
    for _, st in case["prog"]:
        if st["do"] in ("nested", "open", "abandon", "clock"):
            stream.add(res["faults"], {st["do"]: 1})
    for q in case["qs"]:
        res["measures"]["texts"].add(observe.digest(q)[:12])
    if c:
        res["viol"] = {"clause": "read", "detail": c}
    res["log"] = observe.digest([case["qs"], case["prog"], [observe.digest(b) for b in bases], c])
    res["key"] = res["log"]
    res["sample"] = [history.show(q) for q in case["qs"]]
    return res


def shrink(case):
    for xs in drop_one(case["prog"], 1):
        yield dict(case, prog=xs)
    for j in range(len(case["qs"])):
        if len(case["qs"]) > 1:
            yield dict(case, qs=case["qs"][:j] + case["qs"][j + 1:])
        for q in history.shrink_q(case["qs"][j]):
            yield dict(case, qs=case["qs"][:j] + [q] + case["qs"][j + 1:])
    for n, (k, st) in enumerate(case["prog"]):
        if st.get("times", 1) > 1:
            yield dict(case, prog=case["prog"][:n] + [[k, dict(st, times=1)]] + case["prog"][n + 1:])
