"""C05  Interrupts surface intact and do no damage."""
import sys

from .. import boot, history, observe, reading, sched, stream, wire, world
from ..runner import died, drop_one

RUNS = (1200, 22000)
LEVEL = "fault_enumeration"
STUBS = stream.STUBS + "; whoever raises the exception (where the interpreter may deliver one in the library, chosen by the seed)"
ASSUMPTIONS = ["exceptions arrive where CPython 3.12 delivers them: on entry to a function of the library, after a call it "
               "made returned, and when a loop of its goes round",
               "the exception is one the library itself has no business with: KeyboardInterrupt, SystemExit, MemoryError, "
               "CancelledError, an application's timeout (Exception) or shutdown (BaseException)",
               "while the stack is really short any exception may come, but no wrong report"]
RULE = ("A run decodes reports of one receiver process and breaks off 1 to 12 decodes and reads, each by an exception "
        "raised at a place drawn from all points in time, or from all places in the code it passes where "
        "exceptions arrive (uniformly, function by function, or where the code handles exceptions); the caller must receive that very "
        "exception, and every earlier report, every report whose reading was broken off and 2 to 4 later decodes must "
        "be as in a pristine process. Some steps instead leave "
        "little stack: then a decode fails or gives the right report. Non-trivial: at least one exception was raised; distinct by the digest of texts "
        "and places of the exceptions.")


def gen(seed, i, tier):
    r = world.new_rng(seed, "C05", i)
    src = history.Source(r, damage=0.3)
    if r.random() < 0.85:
        src.pool.stations = r.sample(world.EARLY, 2)
    first = [src() for _ in range(r.choice([0, 1, 2]))]
    steps = []
    for _ in range(r.choice([1, 2, 4, 8, 12])):
        s = {"exc": r.choice(sched.INTERRUPTS), "frac": r.random(),
             "place": sched.g_place(r)}
        if first and r.random() < 0.4:
            s["do"], s["i"] = "read", r.randrange(len(first))
            s["prog"] = [{"do": "all"}] if r.random() < 0.5 else reading.g_program(r, r.choice([1, 3, 10]))
        else:
            s["do"], s["q"] = "decode", src()
            p = r.random()
            if s["place"] is not None:
                pass
            elif p < 0.3:
                s["frac"] = r.random() ** 3  # early
            elif p < 0.5:
                s["frac"] = 1 - r.random() ** 3  # late
        p = r.random()
        if p < 0.08:
            s["kind"], s["start"] = "no-stack", r.randint(1, 25)
        steps.append(s)
    last = [src() for _ in range(r.choice([1, 2]))]
    qs = [s["q"] for s in steps if "q" in s]
    if qs:
        last.append(dict(r.choice(qs), truncate=r.random() < 0.1))
        if r.random() < 0.5:
            last.insert(0, src.near(r.choice(qs)))
    return {"first": first, "steps": steps, "last": last}


def measure(q, s):
    """The point of this decode at which the exception is raised, found in a pristine process."""
    history.clock(q)
    return sched.choose_point(lambda: observe.decode(boot.LIB, q["kind"], q["text"], q["year"], q["month"],
                                                     q["truncate"]), "breaks", s["frac"], s["place"])


def starve(fn, left):
    """Run fn() with room for few more frames on the stack.  -> (status, value or exception)"""
    old, depth, f = sys.getrecursionlimit(), 0, sys._getframe()
    while f:
        depth, f = depth + 1, f.f_back
    sys.setrecursionlimit(depth + 3 + left)
    try:
        return "ok", fn()
    except BaseException as e:
        return "raised", e
    finally:
        sys.setrecursionlimit(old)


def live(case, bases, points):
    """-> (complaint, [what happened])"""
    held, happened = [], []
    for q, b in zip(case["first"], bases):
        try:
            held.append(history.decode(q))
        except Exception:
            held.append(None)
    for n, (s, at) in enumerate(zip(case["steps"], points)):
        e = sched.interrupt_class(s["exc"])("stop %d" % n)
        if s["do"] == "decode":
            q = s["q"]
            history.clock(q)
            fn = lambda: observe.decode(boot.LIB, q["kind"], q["text"], q["year"], q["month"], q["truncate"])
            what = "decoding %s" % history.show(q)
        else:
            i = s["i"] % max(1, len(held))
            if not held or held[i] is None:
                happened.append(None)
                continue
            # the reader without `Reader`'s own handling of errors: it must let everything through
            rd = Plain(held[i], bases[i]["report"])
            fn = lambda: rd.run(s["prog"])
            what = "reading %s" % history.show(case["first"][i])
        if s.get("kind"):
            st, v = starve(fn, s["start"])
            happened.append([s["kind"], st if st == "ok" else type(v).__name__])
            if st == "ok" and s["do"] == "decode":
                o, want = {"report": observe.snapshot(v)}, points[n]
                if o != want:
                    return "wrong", "%s, short of %s (%r), gave: %s" % (
                        what, "stack", s["start"], observe.diff_text(want, o)), happened
            del v
            continue
        st, v, _, place = sched.run_interrupted(fn, at, e)
        happened.append([s["exc"], place])
        if place is None:
            continue
        where = "%s raised at point %d (%s) while %s" % (s["exc"], at, place, what)
        if st == "ok":
            return "swallowed", where + " was swallowed", happened
        if v is not e:
            return "replaced", where + " became %s: %s" % (type(v).__name__, v), happened
        if v.args != ("stop %d" % n,):
            return "replaced", where + " arrived with %r" % (v.args,), happened
        del v
    for q, b, rep in zip(case["first"], bases, held):
        if rep is not None:
            now = observe.snapshot(rep)
            if now != b["report"]:
                return "report", "%s now reads differently: %s" % (
                    history.show(q), observe.diff_text(b["report"], now)), happened
    for q, b in zip(case["last"], bases[len(case["first"]):]):
        o = history.outcome(q)
        if o != b:
            return "later", "%s decoded later: %s" % (history.show(q), observe.diff_text(b, o)), happened
    return None, None, happened


class Plain:
    """Asks the same questions as reading.Reader without catching or comparing anything."""

    def __init__(self, rep, base):
        self.rep = rep
        self.nodes = reading.tree(base)
        self.lists = [(p, s) for p, s in self.nodes if "!iter" in s and s.get("items")]

    def one(self, obj, k):
        if k == "!str":
            str(obj)
        elif k == "!len":
            len(obj)
        elif k == "!dict":
            obj.as_dict()
        elif k == "!json":
            obj.to_json()
        elif k.startswith("!"):
            getattr(obj, k[1:])()
        else:
            getattr(obj, k)

    def run(self, prog):
        for st in prog:
            if st["do"] == "all":
                for path, s in self.nodes:
                    obj = reading.resolve(self.rep, path, 0)
                    for k in reading.questions(s):
                        self.one(obj, k)
                    if "!iter" in s:
                        for a in obj:
                            for b in obj:
                                pass
            elif st["do"] == "ask":
                path, s = self.nodes[st["n"] % len(self.nodes)]
                qs = reading.questions(s)
                self.one(reading.resolve(self.rep, path, st["via"]), qs[st["q"] % len(qs)])
            elif self.lists and "l" in st:
                p, s = self.lists[st["l"] % len(self.lists)]
                obj = reading.resolve(self.rep, p, 0)
                for a in obj:
                    str(a)
                    for b in obj:
                        pass


def plain_points(q, s, base):
    rep = history.decode(q)
    rd = Plain(rep, base)
    return sched.choose_point(lambda: rd.run(s["prog"]), "breaks", s["frac"], s["place"])


def run(case, fork):
    res = {"faults": {}, "counts": {}, "sim_s": 0.0, "viol": None, "measures": {"texts": set(), "places": set()}}
    bases = [fork(history.outcome, q) for q in case["first"] + case["last"]]
    points = []
    for s in case["steps"]:
        if s["do"] == "decode":
            points.append(fork(history.outcome, s["q"]) if s.get("kind") else fork(measure, s["q"], s))
        else:
            i = s["i"] % max(1, len(case["first"]))
            ok = case["first"] and not died(bases[i]) and "report" in bases[i]
            points.append(fork(plain_points, case["first"][i], s, bases[i]["report"]) if ok else 1)
    bad = next((x for x in bases + points if died(x)), None)
    out = bad or fork(live, case, bases, points, cpu=60)
    if died(out):
        res["viol"] = {"clause": out["!died"].split()[0], "detail": "%s: %r" % (
            out["!died"], [history.show(s["q"]) for s in case["steps"] if "q" in s])}
        res["log"] = "died"
        return res
    clause, detail, happened = out
    for s, h in zip(case["steps"], happened):
        if h and h[1]:
            stream.add(res["faults"], {h[0]: 1})
            if s.get("kind"):
                stream.add(res["counts"], {"%s-%s" % (h[0], h[1]): 1})
                continue
            stream.add(res["counts"], {s["do"]: 1})
            res["measures"]["places"].add(h[1])
    for q in case["first"] + case["last"]:
        res["measures"]["texts"].add(observe.digest(q)[:12])
    if clause:
        res["viol"] = {"clause": clause, "detail": detail}
    res["log"] = observe.digest([case, happened, clause, [observe.digest(b) for b in bases]])
    res["key"] = observe.digest([case["first"], case["last"], happened]) if res["faults"] else None
    res["sample"] = happened
    return res


def shrink(case):
    for k, low in (("steps", 1), ("first", 0), ("last", 0)):
        for xs in drop_one(case[k], low):
            yield dict(case, **{k: xs})
    for n, s in enumerate(case["steps"]):
        put = lambda s2: dict(case, steps=case["steps"][:n] + [s2] + case["steps"][n + 1:])
        if s["exc"] != "KeyboardInterrupt":
            yield put(dict(s, exc="KeyboardInterrupt"))
        if "q" in s:
            for q in history.shrink_q(s["q"]):
                yield put(dict(s, q=q))
        else:
            for p in drop_one(s["prog"], 1):
                yield put(dict(s, prog=p))
    for k in ("first", "last"):
        for n, q in enumerate(case[k]):
            for q2 in history.shrink_q(q):
                yield dict(case, **{k: case[k][:n] + [q2] + case[k][n + 1:]})
