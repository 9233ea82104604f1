"""C27  A decode or read begun in the middle of another, on the same thread, disturbs neither."""
from .. import boot, history, observe, reading, sched, stream, world
from ..runner import died, drop_one
from .c05 import Plain

RUNS = (1600, 26000)
LEVEL = "exploration"
STUBS = stream.STUBS + "; whatever calls in between (a signal handler, finaliser or hook, at a point chosen by the seed)"
ASSUMPTIONS = ["the call in between comes between lines or bytecodes of the library, as signal handlers do"]
RULE = ("A run decodes or reads reports of one receiver process and, at 1 to 6 lines or bytecodes drawn uniformly from "
        "the places or the points in time passed, lets the same thread do something else first: decode an equal or "
        "nearly equal report, fail a strict decode, read a report - the very one being read, too - or modify what it "
        "handed out. Every decode and read, outer and inner, must give what it gives in a pristine process. "
        "Non-trivial: at least one call in between was made; distinct by the digest of texts and places.")


def gen(seed, i, tier):
    r = world.new_rng(seed, "C27", i)
    src = history.Source(r, damage=0.3)
    if r.random() < 0.85:
        src.pool.stations = r.sample(world.EARLY, 2)
    first = [src() for _ in range(r.choice([0, 1, 2]))]
    steps = []
    for _ in range(r.choice([1, 1, 2, 4])):
        s = {"fine": r.random() < 0.3, "inner": []}
        if first and r.random() < 0.4:
            s["do"], s["i"] = "read", r.randrange(len(first))
            s["prog"] = [{"do": "all"}] if r.random() < 0.6 else reading.g_program(r, r.choice([1, 3, 10]))
        else:
            s["do"], s["q"] = "decode", src()
        for _ in range(r.choice([1, 1, 2, 6])):
            n = {"frac": r.random(), "place": r.random() if r.random() < 0.6 else None, "ops": []}
            for _ in range(r.choice([1, 1, 2])):
                p = r.random()
                if p < 0.6:
                    q = src()
                    if "q" in s and r.random() < 0.4:
                        q = r.choice([s["q"], src.near(s["q"])])
                    n["ops"].append({"do": "decode", "q": dict(q, truncate=q["truncate"] or r.random() < 0.15)})
                elif p < 0.85:
                    n["ops"].append({"do": "read", "i": r.choice([s.get("i", 0), r.randrange(4)])})
                else:
                    n["ops"].append({"do": "spoil", "i": r.choice([s.get("i", 0), r.randrange(4)]),
                                     "how": r.choice(history.SPOILS)})
            s["inner"].append(n)
        steps.append(s)
    return {"first": first, "steps": steps}


def work(s, held, bases):
    """What this step does, as a function, and what it is called; None if its report could not be decoded."""
    if s["do"] == "decode":
        q = s["q"]
        return (lambda: observe.decode(boot.LIB, q["kind"], q["text"], q["year"], q["month"], q["truncate"])), \
            "decoding %s" % history.show(q)
    if not held or held[s["i"] % len(held)] is None:
        return None, None
    rd = Recorder(held[s["i"] % len(held)], bases[s["i"] % len(held)]["report"])
    return (lambda: rd.run(s["prog"])), "reading"


class Recorder(Plain):
    """Notes the first answer that is not the one of the baseline."""

    bad = None

    def one(self, obj, k):
        return Plain.one(self, obj, k)

    def run(self, prog):
        for st in prog:
            if st["do"] in ("all", "ask"):
                nodes = self.nodes if st["do"] == "all" else [self.nodes[st["n"] % len(self.nodes)]]
                for path, s in nodes:
                    obj = reading.resolve(self.rep, path, st.get("via", 0))
                    qs = reading.questions(s)
                    for k in qs if st["do"] == "all" else [qs[st["q"] % len(qs)]]:
                        a = reading.ask(obj, k)
                        if a != s[k] and self.bad is None and not same(a, s[k]):
                            self.bad = "%s of %s: %s" % (k, path, observe.diff_text(s[k], a))
                    if "!iter" in s and st["do"] == "all":
                        inner = obj.items
                        got = [[next((i for i, y in enumerate(inner) if y is x), -1) for x in obj] for a in obj]
                        if any(g != s["!iter"] for g in got) and self.bad is None:
                            self.bad = "nested loops over %s: %r" % (path, got)
            elif self.lists and "l" in st:
                p, s = self.lists[st["l"] % len(self.lists)]
                obj = reading.resolve(self.rep, p, 0)
                n = [1 for a in obj for b in obj]
                if len(n) != len(s["items"]) ** 2 and self.bad is None:
                    self.bad = "nested loops over %s make %d rounds" % (p, len(n))
        return self.bad


def same(a, b):
    return not observe.diff(a, b, limit=1)


def measure(case, n):
    """The point numbers of the calls in between of step n, found in a pristine process."""
    s = case["steps"][n]
    held, bases = [], []
    if s["do"] == "read":
        for q in case["first"]:
            try:
                held.append(history.decode(q))
                bases.append({"report": observe.snapshot(held[-1])})
            except Exception:
                held.append(None)
                bases.append(None)
    else:
        history.clock(s["q"])
    f, _ = work(s, held, bases)
    return [sched.choose_point(f, "bytecodes" if s["fine"] else "lines", m["frac"], m["place"]) for m in s["inner"]] if f else None


def live(case, bases, inner, points):
    """-> (clause, detail, places)"""
    held, places = [], []
    for q, b in zip(case["first"], bases):
        try:
            held.append(history.decode(q))
        except Exception:
            held.append(None)
    for n, s in enumerate(case["steps"]):
        if s["do"] == "decode":
            history.clock(s["q"])
        f, what = work(s, held, bases)
        if f is None or points[n] is None:
            continue
        wrong = []

        def between(ops, outs):
            def call():
                us, tz = boot.CLOCK.us, boot.CLOCK.tz_min
                for op, want in zip(ops, outs):
                    if op["do"] == "decode":
                        o = history.outcome(op["q"])
                        if o != want:
                            wrong.append("%s, decoded in between, %s" % (
                                history.show(op["q"]), observe.diff_text(want, o)))
                        continue
                    k = op["i"] % max(1, len(held))
                    if not held or held[k] is None:
                        continue
                    if op["do"] == "spoil":
                        history.spoil(held[k], op["how"])
                    else:
                        now = observe.snapshot(held[k])
                        if now != bases[k]["report"]:
                            wrong.append("%s, read in between, %s" % (
                                history.show(case["first"][k]), observe.diff_text(bases[k]["report"], now)))
                boot.CLOCK.set(us, tz)
            return call

        marks = {}
        for m, at, outs in zip(s["inner"], points[n], inner[n]):
            marks[at] = between(m["ops"], outs)
        st, v, made = sched.run_nested(f, marks, s["fine"])
        places += made
        where = "%s, with calls in between at %s" % (what, "; ".join("%s" % p for _, p in made))
        if wrong:
            return "inner", "%s: %s" % (where, wrong[0]), places
        if s["do"] == "decode":
            o = {"report": observe.snapshot(v)} if st == "ok" else {"raised": observe.exc(v)}
            if o != bases[len(case["first"]) + n]:
                return "outer", "%s: %s" % (where, observe.diff_text(bases[len(case["first"]) + n], o)), places
        elif st != "ok" or v:
            return "outer", "%s: %s" % (where, v), places
    for q, b, rep in zip(case["first"], bases, held):
        if rep is not None and observe.snapshot(rep) != b["report"]:
            return "report", "%s now reads differently: %s" % (
                history.show(q), observe.diff_text(b["report"], observe.snapshot(rep))), places
    return None, None, places


def run(case, fork):
    res = {"faults": {}, "counts": {}, "sim_s": 0.0, "viol": None, "measures": {"texts": set(), "places": set()}}
    nothing = {"kind": "Metar"}
    bases = [fork(history.outcome, q) for q in case["first"]]
    bases += [fork(history.outcome, s["q"]) if s["do"] == "decode" else nothing for s in case["steps"]]
    inner = [[[fork(history.outcome, op["q"]) if op["do"] == "decode" else None for op in m["ops"]]
              for m in s["inner"]] for s in case["steps"]]
    points = [fork(measure, case, n) for n in range(len(case["steps"]))]
    flat = bases + points + [o for a in inner for b in a for o in b]
    out = next((x for x in flat if died(x)), None) or fork(live, case, bases, inner, points, cpu=60)
    if died(out):
        res["viol"] = {"clause": out["!died"].split()[0], "detail": "%s: %r" % (
            out["!died"], [history.show(s["q"]) for s in case["steps"] if "q" in s])}
        res["log"] = "died"
        return res
    clause, detail, places = out
    for s in case["steps"]:
        for m in s["inner"]:
            for op in m["ops"]:
                stream.add(res["faults"], {"inner-" + op["do"]: 1})
        stream.add(res["counts"], {s["do"] + ("-bytecode" if s["fine"] else "-line"): 1})
    for _, p in places:
        res["measures"]["places"].add(p)
    for q in case["first"] + [s["q"] for s in case["steps"] if "q" in s]:
        res["measures"]["texts"].add(observe.digest(q)[:12])
    if clause:
        res["viol"] = {"clause": clause, "detail": detail}
    res["log"] = observe.digest([case, places, clause, [observe.digest(b) for b in flat]])
    res["key"] = observe.digest([case["first"], case["steps"], places]) if places else None
    res["sample"] = [p for _, p in places[:4]]
    return res


def shrink(case):
    for k, low in (("steps", 1), ("first", 0)):
        for xs in drop_one(case[k], low):
            yield dict(case, **{k: xs})
    for n, s in enumerate(case["steps"]):
        put = lambda s2: dict(case, steps=case["steps"][:n] + [s2] + case["steps"][n + 1:])
        for xs in drop_one(s["inner"], 1):
            yield put(dict(s, inner=xs))
        for j, m in enumerate(s["inner"]):
            for ops in drop_one(m["ops"], 1):
                yield put(dict(s, inner=s["inner"][:j] + [dict(m, ops=ops)] + s["inner"][j + 1:]))
            for l, op in enumerate(m["ops"]):
                if "q" in op:
                    for q in history.shrink_q(op["q"]):
                        ops = m["ops"][:l] + [dict(op, q=q)] + m["ops"][l + 1:]
                        yield put(dict(s, inner=s["inner"][:j] + [dict(m, ops=ops)] + s["inner"][j + 1:]))
        if "q" in s:
            for q in history.shrink_q(s["q"]):
                yield put(dict(s, q=q))
        else:
            for p in drop_one(s["prog"], 1):
                yield put(dict(s, prog=p))
    for j, q in enumerate(case["first"]):
        for q2 in history.shrink_q(q):
            yield dict(case, first=case["first"][:j] + [q2] + case["first"][j + 1:])
