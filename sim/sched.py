"""A deterministic scheduler for caller threads, and the injection points for interrupts.

Every caller is a real thread, but only the one holding the baton runs.  The baton can change hands at
every line (or, in fine mode, every bytecode) executed in the library, and only there; which of these
points become switches is decided by the schedule: either a policy drawn from the run's seed, or an
explicit list of [points until the switch, which runnable thread] recorded from an earlier run."""
import dis
import os
import sys
import _thread
import zlib

MON = sys.monitoring
TOOL = 4

from . import boot


class Deadlock(BaseException):
    pass


def monitor(callback, opcodes=False):
    """Call callback(code, line or offset) at every line (or bytecode) of the library, in every thread.

    sys.monitoring rather than sys.settrace: in CPython 3.12 tracing bytecodes of several threads crashes.
    Locations outside the library are switched off the first time they are met."""
    ev = MON.events.INSTRUCTION if opcodes else MON.events.LINE
    MON.use_tool_id(TOOL, "sim")
    pkg = boot.PKG
    off = MON.DISABLE

    def cb(code, where):
        if code.co_filename.startswith(pkg):
            return callback(code, where)
        return off

    MON.register_callback(TOOL, ev, cb)
    MON.restart_events()
    MON.set_events(TOOL, ev)
    return ev


def unmonitor(ev):
    MON.set_events(TOOL, 0)
    for e in (MON.events.LINE, MON.events.INSTRUCTION):
        if ev & e:
            MON.register_callback(TOOL, e, None)
    MON.free_tool_id(TOOL)


_break_cache = {}
_guard_cache = {}


def guarded(code, offset):
    """Whether an exception at this bytecode is handled, in whatever way, by the code itself."""
    got = _guard_cache.get(code)
    if got is None:
        starts = {i.offset for i in dis.get_instructions(code) if i.opname == "PUSH_EXC_INFO"}
        got = _guard_cache[code] = [e for e in dis._parse_exception_table(code) if e.target in starts]
    return any(e.start <= offset < e.end for e in got)


def breaks(code):
    """The bytecodes of this code before which the interpreter may deliver an exception from outside.

    As CPython 3.12: on entry to a function, after a call returned and when a loop goes round.  Nowhere
    else, and so never between the end of a with block and the release of what it held, for one.  The
    exception belongs to the call, say: where the next bytecode has another handler the point is left out."""
    got = _break_cache.get(code)
    if got is None:
        table = dis._parse_exception_table(code)

        def handler(offset):
            return next(((e.target, e.depth, e.lasti) for e in table if e.start <= offset < e.end), None)

        got, before = set(), None
        for i in dis.get_instructions(code):
            if before is not None and handler(i.offset) == handler(before):
                got.add(i.offset)
            before = None
            if i.opname == "JUMP_BACKWARD":  # belongs to what is just before the head of the loop
                for at in (i.offset, i.argval):
                    if handler(at) == handler(i.argval - 2):
                        got.add(at)
                        break
            elif i.opname in ("CALL", "CALL_FUNCTION_EX") or i.opname == "RESUME" and i.arg < 2:
                before = i.offset
        got = _break_cache[code] = frozenset(got)
    return got


def monitor_breaks(callback, also=None):
    """Call callback(code, offset) where an exception from outside may arrive in the library.

    `also`: a callback for every line of the library besides."""
    E = MON.events
    MON.use_tool_id(TOOL, "sim")
    pkg = boot.PKG
    off = MON.DISABLE

    def cb(code, where):
        if code.co_filename.startswith(pkg) and where in breaks(code):
            return callback(code, where)
        return off

    def line(code, where):
        if code.co_filename.startswith(pkg):
            return also(code, where)
        return off

    ev = E.INSTRUCTION
    MON.register_callback(TOOL, E.INSTRUCTION, cb)
    if also is not None:
        ev |= E.LINE
        MON.register_callback(TOOL, E.LINE, line)
    MON.restart_events()
    MON.set_events(TOOL, ev)
    return ev


_loc_cache = {}


def loc_hash(code, line):
    key = (code, line)
    h = _loc_cache.get(key)
    if h is None:
        h = _loc_cache[key] = zlib.crc32(("%s:%s:%d" % (code.co_filename[len(boot.PKG):], code.co_name, line)).encode())
    return h


def func_hash(code):
    h = _loc_cache.get(code)
    if h is None:
        h = _loc_cache[code] = zlib.crc32(("%s:%s" % (code.co_filename[len(boot.PKG):], code.co_name)).encode())
    return h


class Policy:
    """Seeded decisions when to switch.  kind: gaps | few | loc | func | rare | none

    gaps: at random distances; few: at a few points of the whole run; loc: always at certain places (a
    part of all lines, by their hash); func: with probability p at every point of certain functions; rare: at any line, the
    less often the more often it has been passed, so that what happens once in a decode is hit as well."""

    def __init__(self, spec, rng):
        self.spec = spec
        self.rng = rng
        self.kind = spec["kind"]
        self.cap = spec.get("cap", 2000)
        self.marks = sorted(spec.get("at", []))
        self.visits = {}
        self.next = self._gap() if self.kind == "gaps" else None

    def _gap(self):
        m = self.spec["mean"]
        return 1 if m <= 1 else 1 + int(self.rng.expovariate(1.0 / m))

    def wants(self, n, code, line):
        """Whether to switch at the n-th point, which is at code:line."""
        if self.cap <= 0:
            return False
        k = self.kind
        if k == "gaps":
            self.next -= 1
            if self.next <= 0:
                self.next = self._gap()
                self.cap -= 1
                return True
        elif k == "few":
            if self.marks and n >= self.marks[0]:
                self.marks.pop(0)
                return True
        elif k == "func":
            if func_hash(code) % self.spec["mod"] == self.spec["res"] and self.rng.random() < self.spec["p"]:
                self.cap -= 1
                return True
        elif k == "rare":
            v = self.visits[code, line] = self.visits.get((code, line), 0) + 1
            if self.rng.random() * v < self.spec["p"]:
                self.cap -= 1
                return True
        elif k == "loc":
            if loc_hash(code, line) % self.spec["mod"] == self.spec["res"]:
                self.cap -= 1
                return True
        return False

    def pick(self):
        return self.rng.randrange(1 << 16)


class Replay:
    def __init__(self, switches):
        self.switches = [list(s) for s in switches]
        self.i = 0
        self.left = self.switches[0][0] if self.switches else None
        self._pick = 0

    def wants(self, n, code, line):
        if self.left is None:
            return False
        self.left -= 1
        if self.left <= 0:
            self._pick = self.switches[self.i][1]
            self.i += 1
            self.left = self.switches[self.i][0] if self.i < len(self.switches) else None
            return True
        return False

    def pick(self):
        return self._pick


class Sched:
    def __init__(self, fns, policy, opcodes=False, max_points=5_000_000):
        self.fns = fns
        self.policy = policy
        self.opcodes = opcodes
        self.max_points = max_points
        n = len(fns)
        self.sems = [_thread.allocate_lock() for _ in range(n)]
        for s in self.sems:
            s.acquire()
        self.done = [False] * n
        self.blocked = [None] * n
        self.results = [None] * n
        self.cur = None
        self.points = 0
        self.since = 0
        self.recorded = []  # explicit schedule: [gap, pick]
        self.trace = []  # where the switches happened
        self.deadlock = False
        self.armed = False  # whether anything will reach threads from outside
        self.arms = [None] * n  # per thread: [place, visits to go, action, place where it happened]
        self.inside = set()  # threads stopped in the middle of the library
        self.end = _thread.allocate_lock()
        self.end.acquire()

    # ---- called in the running thread
    def point(self, code, where):
        if self.cur is None or self.done[self.cur]:
            return
        self.points += 1
        self.since += 1
        if self.points > self.max_points:
            return
        if self.opcodes and where in breaks(code):
            self.arrive(code, where)
        if self.policy.wants(self.points, code, where):
            me = self.cur
            cand = [i for i in range(len(self.fns)) if i != me and self._runnable(i)]
            p = self.policy.pick()
            if not cand:
                return
            to = cand[p % len(cand)]
            self.recorded.append([self.since, cand.index(to)])
            self.since = 0
            self.trace.append((me, to, loc_hash(code, where)))
            self.inside.add(me)
            self._hand(me, to)
            self.inside.discard(me)

    def arrive(self, code, where):
        """Where something from outside may reach the running thread."""
        if self.cur is None or self.done[self.cur]:
            return
        a = self.arms[self.cur]
        if a is not None and a[3] is None and loc_hash(code, where) == a[0]:
            a[1] -= 1
            if a[1] == 0:
                a[3] = "%s:%s:%d" % (code.co_filename[len(boot.PKG):], code.co_name, where)
                a[2]()  # an interrupt, or something else for this thread to do first

    def _runnable(self, i):
        if self.done[i]:
            return False
        lock = self.blocked[i]
        return lock is None or lock._owner is None

    def _hand(self, me, to):
        self.cur = to
        self.sems[to].release()
        self.sems[me].acquire()
        if self.deadlock:
            raise Deadlock()

    def block_on(self, lock):
        me = self.cur
        self.blocked[me] = lock
        cand = [i for i in range(len(self.fns)) if i != me and self._runnable(i)]
        if not cand:
            self._all_stuck(me)
            raise Deadlock()
        self.inside.add(me)
        self._hand(me, cand[0])
        self.inside.discard(me)
        self.blocked[me] = None

    def _all_stuck(self, me):
        self.deadlock = True

    def _body(self, i):
        self.sems[i].acquire()
        try:
            if not self.deadlock:
                self.results[i] = ("ok", self.fns[i]())
        except Deadlock:
            self.results[i] = ("deadlock", None)
        except BaseException as e:
            self.results[i] = ("raised", e)
        finally:
            self.done[i] = True
            cand = [j for j in range(len(self.fns)) if self._runnable(j)]
            if not cand:
                cand = [j for j in range(len(self.fns)) if not self.done[j]]
                if cand:
                    self.deadlock = True
            if cand:
                self.cur = cand[0]
                self.sems[cand[0]].release()
            else:
                self.end.release()

    def run(self, first=0):
        boot.SCHED = self
        if self.armed and not self.opcodes:
            ev = monitor_breaks(self.arrive, self.point)
        else:
            ev = monitor(self.point, self.opcodes)
        try:
            for i in range(len(self.fns)):
                _thread.start_new_thread(self._body, (i,))
            self.cur = first % len(self.fns)
            self.sems[self.cur].release()
            self.end.acquire()
        finally:
            unmonitor(ev)
            boot.SCHED = None
        return self.results


class Orphan:
    """The scheduler as a forked process sees it: no other thread came along, none will ever give a lock back."""

    stranded = False

    def block_on(self, lock):
        self.stranded = True
        raise Deadlock()


def orphaned():
    """In a forked process, before anything of the library's that is to run there."""
    if boot.SCHED is not None:
        MON.set_events(TOOL, 0)
        boot.SCHED.cur = None
        boot.SCHED = Orphan()


os.register_at_fork(after_in_child=orphaned)


# ------------------------------------------------------------------------------------------ interrupts
class SimTimeout(Exception):
    """A timeout raised by a watchdog of the caller."""


class SimShutdown(BaseException):
    """A shutdown request of the host application."""


def interrupt_class(name):
    import asyncio

    return {
        "KeyboardInterrupt": KeyboardInterrupt,
        "SystemExit": SystemExit,
        "MemoryError": MemoryError,
        "CancelledError": asyncio.CancelledError,
        "SimTimeout": SimTimeout,
        "SimShutdown": SimShutdown,
    }[name]


INTERRUPTS = ["KeyboardInterrupt", "SystemExit", "MemoryError", "CancelledError", "SimTimeout", "SimShutdown"]


def run_interrupted(fn, at, exc):
    """Run fn() and raise `exc` at the at-th point of the library where an exception may arrive from outside.

    Returns (status, value or exception, points passed, location of the interrupt).  The interpreter discards
    whatever is raised while it closes an abandoned generator or runs a finaliser, and no signal arrives there:
    an exception that met such a point doesn't count as raised."""
    state = [0, None]
    pkglen = len(boot.PKG)

    def cb(code, where):
        state[0] += 1
        if state[0] == at:
            state[1] = "%s:%s:%d" % (code.co_filename[pkglen:], code.co_name, where)
            raise exc

    def discarded(u):
        if u.exc_value is exc:
            state[1] = None

    old, sys.unraisablehook = sys.unraisablehook, discarded
    ev = monitor_breaks(cb)
    try:
        v = fn()
        unmonitor(ev)
        return "ok", v, state[0], state[1]
    except BaseException as e:
        unmonitor(ev)
        return "raised", e, state[0], state[1]
    finally:
        sys.unraisablehook = old


def draw(places, place):
    """One of these (code, where), in order of their first visit.

    place below 1: uniformly; below 2: uniformly from the guarded ones; below 3: a function first, then
    a place in it."""
    if place >= 2:
        codes = list(dict.fromkeys(c for c, _ in places))
        x = (place - 2) * len(codes)
        places = [k for k in places if k[0] is codes[int(x)]]
        return places[int((x - int(x)) * len(places))]
    if place >= 1:
        place -= 1
        places = [k for k in places if guarded(*k)] or places
    return places[int(place * len(places))]


def g_place(r):
    p = r.random()
    return None if p < 0.35 else r.random() + (0 if p < 0.6 else 1 if p < 0.8 else 2)


def choose_point(fn, points, frac, place=None):
    """The number of a point passed while fn() runs; points: lines | bytecodes | breaks.

    Without `place`: `frac` of the way.  With it: the place (line or bytecode of the library) is drawn from
    all places passed (see draw), and `frac` says which of the visits."""
    seq, visits = [0], {}

    def cb(code, where):
        seq[0] += 1
        if place is not None:
            v = visits.setdefault((code, where), [])
            v.append(seq[0])

    ev = monitor_breaks(cb) if points == "breaks" else monitor(cb, points == "bytecodes")
    try:
        fn()
    except Exception:
        pass
    finally:
        unmonitor(ev)
    if place is None or not visits:
        return 1 + int(frac * seq[0])
    v = visits[draw(list(visits), place)]
    return v[int(frac * len(v))]


def choose_place(fn, frac, place=None):
    """As choose_point for breaks, but -> [place, number of the visit], which mean the same after any history."""
    visits, order = {}, []

    def cb(code, where):
        k = (code, where)
        v = visits[k] = visits.get(k, 0) + 1
        order.append((k, v))

    ev = monitor_breaks(cb)
    try:
        fn()
    except Exception:
        pass
    finally:
        unmonitor(ev)
    if not order:
        return None
    if place is None:
        k, v = order[int(frac * len(order))]
        return [loc_hash(*k), v]
    k = draw(list(visits), place)
    return [loc_hash(*k), 1 + int(frac * visits[k])]


def count_points(fn):
    """Lines executed and jumps and branches taken in the library while fn() runs (loops within a line count)."""
    n = [0]
    pkg = boot.PKG
    off = MON.DISABLE
    E = MON.events

    def cb(code, *where):
        if code.co_filename.startswith(pkg):
            n[0] += 1
            return None
        return off

    evs = [E.LINE, E.JUMP, E.BRANCH, E.PY_START]
    MON.use_tool_id(TOOL, "sim")
    for e in evs:
        MON.register_callback(TOOL, e, cb)
    MON.restart_events()
    MON.set_events(TOOL, E.LINE | E.JUMP | E.BRANCH | E.PY_START)
    try:
        st, v = "ok", fn()
    except BaseException as e:
        st, v = "raised", e
    finally:
        MON.set_events(TOOL, 0)
        for e in evs:
            MON.register_callback(TOOL, e, None)
        MON.free_tool_id(TOOL)
    return st, v, n[0]


def run_nested(fn, marks, opcodes=False):
    """Run fn() and, at each point number in `marks`, call marks[number]() on the same thread in the middle of it.

    (As a signal handler, a finaliser or a hook does.)  Points inside such a call are not counted.
    Returns (status, value or exception, [(number, place) of the calls made])."""
    state, made = [0], []
    pkglen = len(boot.PKG)

    def cb(code, where):
        state[0] += 1
        f = marks.get(state[0])
        if f is not None:
            made.append((state[0], "%s:%s:%d" % (code.co_filename[pkglen:], code.co_name, where)))
            f()

    ev = monitor(cb, opcodes)
    try:
        v = fn()
        unmonitor(ev)
        return "ok", v, made
    except BaseException as e:
        unmonitor(ev)
        return "raised", e, made
