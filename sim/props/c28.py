"""C28  A busy receiver serves every caller, whatever befalls the others."""
import sys

from .. import boot, conc, history, observe, reading, runner, sched, stream, world
from ..runner import died, drop_one
from . import c01
from .c05 import Plain

RUNS = (800, 20000)
LEVEL = "fault_enumeration"
STUBS = c01.STUBS + "; whoever interrupts or makes calls in between (where the interpreter lets them, at places chosen by the seed)"
ASSUMPTIONS = c01.ASSUMPTIONS + ["year and month are given with every report, as the clock moves at any moment",
                                 "callers modify the lists and dictionaries they get, not the private state of the objects"]
RULE = ("A run is a receiver process with 2 to 4 threads, each of which does 1 to 5 things: decode a report and publish it, "
        "fail a strict decode, read a published report, modify what one handed out, set the clock, be interrupted in a "
        "decode or read at a place drawn from all places passed (and go on, or die of it), or do another thread's work in "
        "the middle of its own, as a signal handler does. The run's seed decides every switch. Every outcome that was not "
        "interrupted must be that of a pristine process, every interrupt must arrive as raised, no thread may wait forever, "
        "and in the end every published report and 1 or 2 later decodes are as in a pristine process. Non-trivial: a switch "
        "and one other fault; distinct by the digest of the work and of the sequence of switches.")


def g_query(r, src, near=None):
    q = src.near(near) if near is not None and r.random() < 0.5 else src()
    return dict(q, year=q["year"] or r.randint(1990, 2030), month=q["month"] or r.randint(1, 12), tz=0)


def g_place(r):
    return {"frac": r.random(), "place": sched.g_place(r)}


def gen(seed, i, tier):
    r = world.new_rng(seed, "C28", i)
    src = history.Source(r, damage=0.35)
    src.pool.stations = r.sample(world.EARLY, 2)
    first = [g_query(r, src) for _ in range(r.choice([0, 1, 1, 2]))]
    known = list(first)
    threads = []
    for _ in range(r.choice([2, 2, 3, 4])):
        ops = []
        for _ in range(r.choice([1, 2, 3, 5])):
            p = r.random()
            q = dict(r.choice(known)) if known and r.random() < 0.25 else g_query(r, src, known[-1] if known else None)
            known.append(q)
            if p < 0.3:
                op = {"do": "decode", "q": q}
            elif p < 0.5:
                op = dict(g_place(r), do="cut", q=q, exc=r.choice(sched.INTERRUPTS), dies=r.random() < 0.2)
            elif p < 0.6:
                op = dict(g_place(r), do="nest", q=q, other=g_query(r, src, q) if r.random() < 0.7 else None,
                          i=r.randrange(8))
            elif p < 0.75:
                op = {"do": "read", "i": r.randrange(8),
                      "prog": [{"do": "all"}] if r.random() < 0.3 else reading.g_program(r, r.choice([1, 3, 8]))}
            elif p < 0.83:
                op = dict(g_place(r), do="cut-read", i=r.randrange(8), exc=r.choice(sched.INTERRUPTS), dies=False,
                          prog=[{"do": "all"}] if r.random() < 0.5 else reading.g_program(r, r.choice([1, 3, 8])))
            elif p < 0.94:
                op = {"do": "spoil", "i": r.randrange(8), "how": r.choice(history.SPOILS),
                      "what": r.choice(["both", "dicts", "lists"])}
            else:
                op = {"do": "clock", "at": stream.us_of(world.random_instant(r, 1975, 2085)), "tz": r.choice([0, 330, -600])}
            ops.append(op)
        threads.append(ops)
    last = [dict(r.choice(known)) if r.random() < 0.6 else g_query(r, src) for _ in range(r.choice([1, 2]))]
    return {"at": stream.us_of(src.t), "first": first, "threads": threads, "last": last,
            "sched": conc.g_schedule(r, len(threads), r.choice([300, 2000, 5000]))}


def lib_decode(q):
    return observe.decode(boot.LIB, q["kind"], q["text"], q["year"], q["month"], q["truncate"])


def measure(op, q):
    """Where in this decode or read the interrupt or call comes, found in a pristine process."""
    if op["do"] == "cut-read":
        try:
            rep = history.decode(q)
        except Exception:
            return None
        rd = Plain(rep, observe.snapshot(rep))
        return sched.choose_place(lambda: rd.run(op["prog"]), op["frac"], op["place"])
    history.clock(op["q"])
    return sched.choose_place(lambda: lib_decode(op["q"]), op["frac"], op["place"])


class Death(Exception):
    """This thread ends here."""


class Process:
    def __init__(self, case, bases, places):
        self.case, self.bases, self.places = case, bases, places
        self.board = []  # published reports: [request, report]
        self.bad = []
        self.happened = []
        self.sched = None

    def want(self, q):
        return self.bases[observe.digest(q)]

    def complain(self, clause, text):
        self.bad.append([clause, text])

    def publish(self, q, rep):
        self.board.append([q, rep])

    def outcome(self, q, why=""):
        try:
            rep = lib_decode(q)
        except Exception as e:
            o = {"raised": observe.exc(e)}
        else:
            self.publish(q, rep)
            o = None
        w = self.want(q)
        if o is not None and o != w:
            self.complain("mixed", "%s%s: %s" % (history.show(q), why, observe.diff_text(w, o)))
        elif o is None and "report" not in w:
            self.complain("mixed", "%s%s was decoded, but must fail: %s" % (history.show(q), why, w))

    def read(self, k, prog=None, why=""):
        if not self.board:
            return
        q, rep = self.board[k % len(self.board)]
        base = self.want(q).get("report")
        if base is None:
            return
        if prog is None:
            now = observe.snapshot(rep)
            e = None if now == base else observe.diff_text(base, now)
        else:
            e = reading.Reader(rep, base, reading.tree(base)).run(prog)
        if e:
            self.complain("read", "reading %s%s: %s" % (history.show(q), why, e))

    def arm(self, me, place, action):
        a = self.sched.arms[me] = [place[0], place[1], action, None] if place else None
        return a

    def cut(self, me, op, place, fn, what):
        e = sched.interrupt_class(op["exc"])("stop %d" % me)

        def action():
            raise e

        a = self.arm(me, place, action)
        if a:
            a.append(e)
        v = None
        try:
            v = fn()
            st = "ok"
        except sched.Deadlock:
            raise
        except BaseException as x:
            st, v = "raised", x
        self.sched.arms[me] = None
        if not a or a[3] is None:
            return
        self.happened.append([op["exc"], a[3]])
        where = "%s raised at %s while %s" % (op["exc"], a[3], what)
        if st == "ok":
            self.complain("swallowed", where + " was swallowed")
        elif v is not e or v.args != ("stop %d" % me,):
            self.complain("replaced", where + " became %s: %s" % (type(v).__name__, v))
        if op["dies"]:
            raise Death()

    def nest(self, me, op, place):
        def action():
            self.happened.append(["call-between", a[3]])
            why = " in the middle of decoding %s (at %s)" % (history.show(op["q"]), a[3])
            if op["other"]:
                self.outcome(op["other"], why)
            else:
                self.read(op["i"], None, why)

        a = self.arm(me, place, action)
        self.outcome(op["q"], " with work in between")
        self.sched.arms[me] = None

    def forked(self, qs):
        """What a process forked from this one makes of `qs` and of the reports published."""
        self.bad = []
        doing = "what the library has asked for"
        try:
            if boot.SCHED.stranded:
                raise sched.Deadlock()
            for n in range(len(self.board)):
                doing = "reading " + history.show(self.board[n][0])
                self.read(n, None, " in a forked process")
            for q in qs:
                doing = "decoding " + history.show(q)
                k = len(self.board)
                history.clock(q)
                self.outcome(q, " in a forked process")
                if len(self.board) > k:
                    self.read(k, None, " in the forked process that decoded it")
        except sched.Deadlock:
            self.complain("stranded", doing + " in a forked process waits for a thread that stayed behind")
        return self.bad[:1]

    def fork(self, me, op, at):
        """A fork between two things this thread does, or in the middle of a decode of its own (at a place)."""
        others = len(self.sched.inside)
        bad = runner.fork(self.forked, op["qs"], wall=40)
        if died(bad):
            bad = [[bad["!died"].split()[0], "%s: a process forked %s, decoding %s" % (
                bad["!died"], at, [history.show(q) for q in op["qs"]])]]
        self.bad += bad
        self.happened.append(["fork", at, others])

    def fork_inside(self, me, op, place):
        a = self.arm(me, place, lambda: self.fork(me, op, a[3]))
        self.outcome(op["q"], " with a fork in the middle")
        self.sched.arms[me] = None

    def thread(self, me):
        def go():
            try:
                for op, place in zip(self.case["threads"][me], self.places[me]):
                    k = op["do"]
                    if k == "decode":
                        self.outcome(op["q"])
                    elif k == "cut":
                        self.cut(me, op, place, lambda: lib_decode(op["q"]), "decoding " + history.show(op["q"]))
                    elif k == "nest":
                        self.nest(me, op, place)
                    elif k == "fork":
                        self.fork(me, op, "between")
                    elif k == "fork-inside":
                        self.fork_inside(me, op, place)
                    elif k == "read":
                        self.read(op["i"], op["prog"])
                    elif k == "cut-read":
                        n = len(self.case["first"])
                        own = [b for b in self.board if b[0] is self.case["first"][op["i"] % n]] if n else []
                        if own:
                            rd = Plain(own[0][1], self.want(own[0][0])["report"])
                            self.cut(me, op, place, lambda: rd.run(op["prog"]), "reading " + history.show(own[0][0]))
                    elif k == "spoil":
                        if self.board:
                            history.spoil(self.board[op["i"] % len(self.board)][1], op["how"], op["what"])
                    else:
                        boot.CLOCK.set(op["at"], op["tz"])
            except Death:
                pass
        return go


def live(case, bases, places):
    boot.CLOCK.set(case["at"], 0)
    p = Process(case, bases, places)
    for q in case["first"]:
        p.outcome(q)
    s = p.sched = conc.make([p.thread(k) for k in range(len(case["threads"]))], case["sched"])
    s.armed = any(at for row in places for at in row)

    def discarded(u):
        # the interpreter drops what is raised while it closes an abandoned loop: nobody was interrupted then
        for a in s.arms:
            if a and len(a) > 4 and u.exc_value is a[4]:
                a[3] = None

    old, sys.unraisablehook = sys.unraisablehook, discarded
    try:
        results = s.run(case["sched"]["first"])
    finally:
        sys.unraisablehook = old
    for k, (st, v) in enumerate(results):
        if st != "ok":
            p.complain(st, "thread %d: %s %r" % (k, st, v))
    if not s.deadlock:
        for n in range(len(p.board)):
            p.read(n, None, " in the end")
        for q in case["last"]:
            p.outcome(q, " decoded in the end")
            if p.board and p.board[-1][0] is q:
                p.read(len(p.board) - 1, None, " decoded in the end")
    return p.bad[:1], p.happened, s.recorded, s.points, s.trace


def asked(case):
    for q in case["first"] + case["last"]:
        yield q
    for ops in case["threads"]:
        for op in ops:
            for k in ("q", "other"):
                if op.get(k):
                    yield op[k]
            yield from op.get("qs", ())


def run(case, fork):
    res = {"faults": {}, "counts": {}, "sim_s": 0.0, "viol": None, "switches": case["sched"].get("switches", []),
           "measures": {"texts": set(), "places": set(), "switch-places": set(), "interleavings": set()}}
    bases = {}
    for q in asked(case):
        k = observe.digest(q)
        if k not in bases:
            bases[k] = fork(history.outcome, q)
        res["measures"]["texts"].add(k[:12])
    fine, places = case["sched"]["fine"], []
    for ops in case["threads"]:
        places.append([])
        for op in ops:
            at = None
            if op["do"] in ("cut", "nest", "fork-inside"):
                at = fork(measure, op, None)
            elif op["do"] == "cut-read" and case["first"]:
                at = fork(measure, op, case["first"][op["i"] % len(case["first"])])
            places[-1].append(at)
    flat = list(bases.values()) + [x for p in places for x in p]
    out = next((x for x in flat if died(x)), None) or fork(live, case, bases, places, cpu=60)
    if died(out):
        res["viol"] = {"clause": out["!died"].split()[0], "detail": "%s: %s" % (
            out["!died"], [history.show(q) for q in asked(case)])}
        res["log"] = "died"
        return res
    bad, happened, switches, points, trace = out
    res["switches"] = switches
    if bad:
        res["viol"] = {"clause": bad[0][0], "detail": "%d threads, %d switches, %d interrupts and calls: %s" % (
            len(case["threads"]), len(switches), len(happened), bad[0][1])}
    for h in happened:
        stream.add(res["faults"], {h[0]: 1})
        if h[0] == "fork" and h[2]:
            stream.add(res["faults"], {"fork-with-others-inside": 1})
        res["measures"]["places"].add(h[1])
    for ops in case["threads"]:
        for op in ops:
            stream.add(res["counts"], {op["do"]: 1})
            if op["do"] in ("spoil", "clock"):
                stream.add(res["faults"], {op["do"]: 1})
    other = bool(res["faults"])
    stream.add(res["faults"], {"switch": len(switches)})
    stream.add(res["counts"], {"points": points, ("fine" if fine else "lines"): 1})
    for a, b, h in trace:
        res["measures"]["switch-places"].add(h)
    inter = observe.digest([conc.interleaving(trace), case["first"], case["threads"]])
    res["measures"]["interleavings"].add(observe.digest(conc.interleaving(trace))[:12])
    res["log"] = observe.digest([inter, happened, bad, sorted(bases), [observe.digest(bases[k]) for k in sorted(bases)]])
    res["key"] = inter if trace and other else None
    res["sample"] = {"threads": [[op["do"] for op in ops] for ops in case["threads"]], "faults": happened[:6],
                     "switches": switches[:12]}
    return res


explicit = conc.explicit


def shrink(case):
    ts = case["threads"]
    if len(ts) > 1:
        for j in range(len(ts)):
            yield dict(case, threads=ts[:j] + ts[j + 1:], sched=dict(case["sched"], first=0))
    for k in ("first", "last"):
        for xs in drop_one(case[k], 0):
            yield dict(case, **{k: xs})
    yield from conc.shrink_schedule(case)
    for j, ops in enumerate(ts):
        put = lambda x: dict(case, threads=ts[:j] + [x] + ts[j + 1:])
        for xs in drop_one(ops, 0):
            yield put(xs)
        for n, op in enumerate(ops):
            for k in ("q", "other"):
                if op.get(k):
                    for q in history.shrink_q(op[k]):
                        yield put(ops[:n] + [dict(op, **{k: q})] + ops[n + 1:])
            for xs in drop_one(op.get("qs", []), 1):
                yield put(ops[:n] + [dict(op, qs=xs)] + ops[n + 1:])
            for m, q in enumerate(op.get("qs", [])):
                for q2 in history.shrink_q(q):
                    yield put(ops[:n] + [dict(op, qs=op["qs"][:m] + [q2] + op["qs"][m + 1:])] + ops[n + 1:])
            if "prog" in op:
                for x in drop_one(op["prog"], 1):
                    yield put(ops[:n] + [dict(op, prog=x)] + ops[n + 1:])
    for k in ("first", "last"):
        for n, q in enumerate(case[k]):
            for q2 in history.shrink_q(q):
                yield dict(case, **{k: case[k][:n] + [q2] + case[k][n + 1:]})
