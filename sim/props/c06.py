"""C06  Decoding and reading perform no I/O and need none."""
import errno
import io
import os
import resource
import sys
import warnings

from .. import boot, observe, stream, wire, world
from ..runner import died

RUNS = (4000, 60000)
LEVEL = "fault_enumeration"
STUBS = stream.STUBS + "; standard streams of the process (missing, closed, full, broken or recording)"
ASSUMPTIONS = ["Python's default warning filters are in force; DeprecationWarning is not shown",
               "I/O is observed through the audit events of the interpreter, the descriptors 1 and 2 and the stream "
               "objects; importing a module on first use is not I/O of the decode"]
RULE = ("A run decodes and reads 1 to 5 reports (most of them after link faults; both modes) in one process whose "
        "standard streams are, report by report, missing, closed, full, broken or recording, at times without free "
        "descriptors and without working directory; nothing may be written or opened and every outcome must be that of "
        "a process with ordinary streams. Non-trivial: always; distinct by the digest of all outcomes and stream "
        "states.")
STATES = ["none", "closed", "full", "broken", "devfull", "record", "ascii", "noattr"]
EVENTS = ("open", "os.", "socket.", "subprocess.", "shutil.", "tempfile.", "urllib.", "ftplib.", "http.", "sqlite3.",
          "mmap.", "glob.", "pathlib.", "builtins.input", "fcntl.", "smtplib.", "webbrowser.", "msvcrt.", "syslog.",
          "signal.pthread_kill", "pty.", "ctypes.")
HARMLESS = ("os.putenv", "os.unsetenv")


class Watch:
    """A stream that records what it is asked for and fails as told."""

    def __init__(self, name, log, state):
        self.name, self.log, self.state = name, log, state
        self.encoding = "ascii" if state == "ascii" else "utf-8"
        self.errors = "strict"

    def write(self, s):
        self.log.append("%s.write(%r)" % (self.name, s[:200] if isinstance(s, (str, bytes)) else s))
        if self.state == "full":
            raise OSError(errno.ENOSPC, "No space left on device")
        if self.state == "broken":
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        if self.state == "ascii":
            s.encode("ascii")
        return len(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        self.log.append("%s.flush()" % self.name)
        if self.state in ("full", "broken"):
            raise OSError(errno.ENOSPC, "No space left on device")

    def _read(self, *a):
        self.log.append("%s read" % self.name)
        return ""

    read = readline = _read

    def isatty(self):
        return False

    def fileno(self):
        self.log.append("%s.fileno()" % self.name)
        raise OSError("no descriptor")


class Bare:
    """Stands in for a stream and has none of its methods."""


def make(state, name, log):
    if state == "none":
        return None
    if state == "closed":
        s = io.StringIO()
        s.close()
        return s
    if state == "devfull":
        return io.TextIOWrapper(open("/dev/full", "wb", 0), write_through=True)
    if state == "noattr":
        return Bare()
    return Watch(name, log, state)


def gen(seed, i, tier):
    r = world.new_rng(seed, "C06", i)
    case = stream.gen(r, r.randint(1, 5), stream.DAMAGE, rate=0.7, max_ops=r.choice([2, 6, 20]), trunc=0.3)
    for m in case["msgs"]:
        m["streams"] = [r.choice(STATES), r.choice(STATES), r.choice(["none", "closed", "record"])]
        m["nofd"] = r.random() < 0.2
        m["nocwd"] = r.random() < 0.1
    return case


def ordinary(case):
    out = []
    for at, n, m in stream.arrivals(case):
        req, _, _ = stream.request(m)
        boot.CLOCK.set(at, case["tz_min"])
        out.append(observe.outcome(boot.LIB, req) if req["text"] else None)
    return out


def importing():
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_filename.startswith("<frozen importlib"):
            return True
        f = f.f_back
    return False


def receive(case):
    warnings.resetwarnings()
    warnings.simplefilter("default")
    for w in (DeprecationWarning, PendingDeprecationWarning, ImportWarning, ResourceWarning):
        warnings.simplefilter("ignore", w)
    rd, wr = os.pipe()
    os.set_blocking(rd, False)
    for fd in (1, 2):
        os.dup2(wr, fd)
    sys.__stdout__ = open(1, "w", closefd=False)
    sys.__stderr__ = open(2, "w", closefd=False)
    active = [False]
    log = []

    def hook(event, args):
        if active[0] and event.startswith(EVENTS) and event not in HARMLESS:
            active[0] = False
            try:
                if not importing():
                    log.append("%s%r" % (event, tuple(observe.brief(repr(a), 80) for a in args)))
            finally:
                active[0] = True

    sys.addaudithook(hook)
    out = []
    for at, n, m in stream.arrivals(case):
        req, _, _ = stream.request(m)
        if not req["text"]:
            out.append((None, []))
            continue
        boot.CLOCK.set(at, case["tz_min"])
        del log[:]
        states = m["streams"]
        saved = sys.stdout, sys.stderr, sys.stdin
        new = [make(s, "std" + nm, log) for s, nm in zip(states, ("out", "err", "in"))]
        if m["nocwd"]:
            d = "/tmp/sim-c06-%d" % os.getpid()
            os.mkdir(d)
            os.chdir(d)
            os.rmdir(d)
        soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
        if m["nofd"]:
            resource.setrlimit(resource.RLIMIT_NOFILE, (0, hard))
        sys.stdout, sys.stderr, sys.stdin = new
        active[0] = True
        try:
            o = observe.outcome(boot.LIB, req)
        finally:
            active[0] = False
            replaced = (sys.stdout, sys.stderr, sys.stdin) != tuple(new)
            sys.stdout, sys.stderr, sys.stdin = saved
            if m["nofd"]:
                resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
            if m["nocwd"]:
                os.chdir("/")
        seen = list(log)
        if replaced:
            seen.append("the standard streams were replaced")
        sys.__stdout__.flush()
        sys.__stderr__.flush()
        try:
            data = os.read(rd, 1 << 16)
        except BlockingIOError:
            data = b""
        if data:
            seen.append("written to descriptor 1 or 2: %r" % data[:200])
        out.append((o, seen))
    return out


def run(case, fork):
    base = fork(ordinary, case)
    outs = fork(receive, case)
    res = {"faults": {}, "counts": {}, "sim_s": stream.sim_seconds(case), "viol": None,
           "measures": {"texts": set(), "outcomes": set(), "stream-states": set()}}
    for x in (base, outs):
        if died(x):
            res["viol"] = {"clause": x["!died"].split()[0], "detail": x["!died"]}
            return res
    log = []
    for (at, n, m), b, (o, seen) in zip(stream.arrivals(case), base, outs):
        if o is None:
            continue
        req, us, fired = stream.request(m)
        stream.add(res["faults"], fired)
        for s, nm in zip(m["streams"], ("stdout", "stderr", "stdin")):
            stream.add(res["faults"], {"%s-%s" % (nm, s): 1})
        for k in ("nofd", "nocwd"):
            if m[k]:
                stream.add(res["faults"], {k: 1})
        log.append([m["streams"], observe.digest(o)])
        res["measures"]["texts"].add(observe.digest(req)[:12])
        res["measures"]["outcomes"].add(log[-1][1][:12])
        res["measures"]["stream-states"].add("/".join(m["streams"]))
        if res["viol"]:
            continue
        where = "%s with stdout %s, stderr %s, stdin %s%s: " % (
            (stream.describe(m, req),) + tuple(m["streams"]) + (", no descriptors" if m["nofd"] else "",))
        if seen:
            res["viol"] = {"clause": "io", "detail": where + "; ".join(seen[:4])}
        elif o != b:
            res["viol"] = {"clause": "differs", "detail": where + observe.diff_text(b, o)}
    res["log"] = observe.digest(log)
    res["key"] = res["log"]
    res["sample"] = [stream.describe(m) for _, _, m in stream.arrivals(case)[:2]]
    return res


def shrink(case):
    yield from stream.shrink(case)
    for i, m in enumerate(case["msgs"]):
        put = lambda m2: dict(case, msgs=case["msgs"][:i] + [m2] + case["msgs"][i + 1:])
        for j in range(3):
            if m["streams"][j] != "record":
                s = list(m["streams"])
                s[j] = "record"
                yield put(dict(m, streams=s))
        for k in ("nofd", "nocwd"):
            if m[k]:
                yield put(dict(m, **{k: False}))
