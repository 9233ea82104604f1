"""C24  What a report hands out belongs to the caller."""
from .. import boot, history, observe, stream, world
from ..runner import died, drop_one

RUNS = (3000, 50000)
LEVEL = "exploration"
STUBS = stream.STUBS
ASSUMPTIONS = ["callers modify the lists and dictionaries they get, not the private state of the objects"]
RULE = ("A run decodes 1 to 3 reports (half of them after link faults) and hands them to several simulated callers, "
        "which take lists and dictionaries from them, keep them, modify them (clear, append, reverse, overwrite, at "
        "any depth) and read, in a random order, while the clock moves. Every report must read as in a pristine "
        "process after every step, and what one caller keeps must not change by what another does. Non-trivial: "
        "always; distinct by the digest of texts and programs.")


def gen(seed, i, tier):
    r = world.new_rng(seed, "C24", i)
    src = history.Source(r, damage=0.5)
    qs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        q = src.fresh()
        q["truncate"] = False
        qs.append(q)
    prog = []
    for _ in range(r.choice([3, 6, 12])):
        p = r.random()
        k = r.randrange(len(qs))
        if p < 0.3:
            prog.append({"do": "keep", "r": k})
        elif p < 0.85:
            prog.append({"do": "spoil", "r": k, "how": r.choice(history.SPOILS), "pick": r.randrange(1 << 30),
                         "share": r.choice([0.02, 0.1, 0.5, 1.0]), "deep": r.random() < 0.7})
        elif p < 0.95:
            prog.append({"do": "read", "r": k})
        else:
            prog.append({"do": "clock", "us": r.choice([1, 3600, 86400 * 40]) * 1000000})
    return {"qs": qs, "prog": prog}


def handed(obj, path="report", depth=0):
    """Every list and dictionary that the public answers of a report hand out, with the way to it."""
    if depth > 8 or not observe.is_lib(obj):
        return
    for name in observe.public_props(type(obj)):
        try:
            v = getattr(obj, name)
        except Exception:
            continue
        p = path + "." + name
        for x in v if isinstance(v, (list, tuple)) else [v]:
            for y in handed(x, p, depth + 1):
                yield y
        if isinstance(v, (list, dict)):
            yield p, v
    if callable(getattr(type(obj), "as_dict", None)):
        try:
            d = obj.as_dict()
        except Exception:
            return
        yield path + ".as_dict()", d


def modify(v, how, deep):
    if deep:
        history.spoil_value(v, how)
    elif isinstance(v, list):
        history.spoil_list(v, how)
    elif how == "clear":
        v.clear()
    else:
        v["JUNK"] = "JUNK"


def same(a, b, depth=0):
    """Equal by plain data and by identity of library objects."""
    if depth > 12:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, depth + 1) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k], depth + 1) for k in a)
    return a is b or (not observe.is_lib(a) and (a == b or a != a))


def freeze(v):
    """A copy of the lists and dictionaries that still names the same library objects."""
    if isinstance(v, list):
        return [freeze(x) for x in v]
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    if isinstance(v, dict):
        return {k: freeze(x) for k, x in v.items()}
    return v


def live(case, bases):
    reps = []
    for q, b in zip(case["qs"], bases):
        try:
            reps.append(history.decode(q) if "report" in b else None)
        except Exception as e:
            return "decoding %s: %s: %s" % (history.show(q), type(e).__name__, e), 0
    kept, spoilt = [], 0
    for n, op in enumerate(case["prog"]):
        if op["do"] == "clock":
            boot.CLOCK.advance(op["us"])
            continue
        k = op["r"] % len(reps)
        rep, base = reps[k], bases[k].get("report")
        if rep is None:
            continue
        where = "%s, step %d" % (history.show(case["qs"][k]), n + 1)
        if op["do"] == "keep":
            for p, v in handed(rep):
                kept.append((k, n, p, v, freeze(v)))
        elif op["do"] == "spoil":
            r = world.new_rng(op["pick"], "spoil")
            for p, v in list(handed(rep)):
                if op["share"] >= 1 or r.random() < op["share"]:
                    modify(v, op["how"], op["deep"])
                    spoilt += 1
        s = observe.snapshot(rep)
        if s != base:
            return "%s (%s): the report reads differently: %s" % (where, op["do"], observe.diff_text(base, s)), spoilt
        for kk, m, p, v, f in kept:
            if not same(v, f):
                return "%s (%s %s): what %s gave another caller at step %d has changed: %s" % (
                    where, op["do"], op.get("how", ""), p, m + 1, observe.diff_text(
                        observe.plain(f, None, p), observe.plain(v, None, p))), spoilt
    for q, rep, b in zip(case["qs"], reps, bases):
        if rep is not None and observe.snapshot(rep) != b["report"]:
            return "%s: in the end the report reads differently: %s" % (
                history.show(q), observe.diff_text(b["report"], observe.snapshot(rep))), spoilt
    return None, spoilt


def run(case, fork):
    res = {"faults": {}, "counts": {}, "sim_s": 0.0, "viol": None, "measures": {"texts": set()}}
    bases = [fork(history.outcome, q) for q in case["qs"]]
    out = next((b for b in bases if died(b)), None) or fork(live, case, bases)
    if died(out):
        res["viol"] = {"clause": out["!died"].split()[0], "detail": out["!died"]}
        res["log"] = "died"
        return res
    c, n = out
    res["counts"] = {"steps": len(case["prog"]), "modified": n}
    for op in case["prog"]:
        if op["do"] != "read":
            stream.add(res["faults"], {op["do"] + ("-" + op["how"] if "how" in op else ""): 1})
    for q in case["qs"]:
        res["measures"]["texts"].add(observe.digest(q)[:12])
    if c:
        res["viol"] = {"clause": "modified", "detail": c}
    res["log"] = observe.digest([case["qs"], case["prog"], [observe.digest(b) for b in bases], c, n])
    res["key"] = res["log"]
    res["sample"] = [history.show(q) for q in case["qs"]]
    return res


def shrink(case):
    for xs in drop_one(case["prog"], 1):
        yield dict(case, prog=xs)
    for j in range(len(case["qs"])):
        if len(case["qs"]) > 1:
            yield dict(case, qs=case["qs"][:j] + case["qs"][j + 1:])
        for q in history.shrink_q(case["qs"][j]):
            yield dict(case, qs=case["qs"][:j] + [q] + case["qs"][j + 1:])
    for n, op in enumerate(case["prog"]):
        if op["do"] == "spoil" and op["share"] < 1:
            yield dict(case, prog=case["prog"][:n] + [dict(op, share=1.0)] + case["prog"][n + 1:])
