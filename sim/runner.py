"""Runs the simulated executions of one property: many seeds on several workers, each run in a pristine
process, then minimisation, replay and the evidence file.

The main process never imports the library.  Every worker bootstraps it once and stays pristine: it
decodes nothing itself, every step that touches the library runs in a fork of it (`fork`)."""
import hashlib
import importlib
import json
import os
import pickle
import resource
import select
import signal
import struct
import sys
import time
import traceback

MONO = time.monotonic  # taken before the simulated clock replaces it

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

CPU_LIMIT = 20  # seconds of CPU for one forked step (they take about 0.02)
WALL_LIMIT = 120
MEM_LIMIT = 3 << 30


class HarnessError(Exception):
    pass


def _cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            p = f.read().rsplit(")", 1)[1].split()
        return (int(p[11]) + int(p[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def fork(fn, *args, cpu=CPU_LIMIT, wall=WALL_LIMIT):
    """Run fn(*args) in a fork of this process.

    Returns its value; or {"!died": "hang" | "stuck" | "signal N" | "exit N"} if the step used up its CPU
    time, stopped without using any, or took the process down.  An exception of the harness inside the step
    is a HarnessError here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
            try:
                out = ("ok", fn(*args))
            except BaseException:
                out = ("err", traceback.format_exc())
            data = pickle.dumps(out, protocol=5)
            view = memoryview(data)
            while view:
                n = os.write(w, view[: 1 << 16])
                view = view[n:]
        except BaseException:
            code = 77
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = MONO() + wall
    stuck = False
    while True:
        left = deadline - MONO()
        if left <= 0:
            stuck = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    if stuck:
        used = _cpu_of(pid)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        return {"!died": "stuck" if used < cpu / 2 else "hang"}
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        s = os.WTERMSIG(status)
        return {"!died": "hang" if s in (signal.SIGXCPU, signal.SIGKILL) else "signal %d" % s}
    c = os.WEXITSTATUS(status)
    data = b"".join(chunks)
    if c or not data:
        return {"!died": "exit %d" % c}
    kind, val = pickle.loads(data)
    if kind == "err":
        raise HarnessError(val)
    return val


def died(x):
    return isinstance(x, dict) and "!died" in x


# ------------------------------------------------------------------------------------------- one worker
def load(pid):
    return importlib.import_module("sim.props.%s" % pid.lower())


def quiet_process():
    """Nothing the library prints reaches the output of the check."""
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    os.dup2(null, 2)
    sys.stdout = open(1, "w", buffering=1, closefd=False)
    sys.stderr = open(2, "w", buffering=1, closefd=False)


def prepare(P):
    from . import boot
    import gc

    boot.bootstrap(getattr(P, "IMPORT_US", None))
    if hasattr(P, "prepare"):
        P.prepare()
    gc.collect()
    gc.freeze()


def run_case(P, case):
    """-> result dict: viol (None or {clause, detail}), key, faults, counts, sim_s, log."""
    res = P.run(case, fork)
    res.setdefault("viol", None)
    return res


def _send(fd, obj):
    data = pickle.dumps(obj, protocol=5)
    data = struct.pack("<I", len(data)) + data
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def _worker(P, seed, tier, total, take, best, wfd, stop_at):
    quiet_process()
    try:
        prepare(P)
        while True:
            if stop_at and MONO() > stop_at:
                break
            i = take()
            if i >= total or i > best.value:
                break
            case = P.gen(seed, i, tier)
            res = run_case(P, case)
            if res["viol"]:
                with best.get_lock():
                    best.value = min(best.value, i)
            _send(wfd, (i, case if (res["viol"] or i < 3) else None, res))
        _send(wfd, None)
    except BaseException:
        try:
            _send(wfd, ("error", traceback.format_exc(), None))
        except BaseException:
            pass
        os._exit(3)
    os._exit(0)


def explore(P, seed, tier, total, workers, budget=None, on_result=None):
    import ctypes
    import multiprocessing as mp

    counter = mp.Value(ctypes.c_long, 0)
    best = mp.Value(ctypes.c_long, 1 << 60)

    def take():
        with counter.get_lock():
            i = counter.value
            counter.value += 1
            return i

    stop_at = MONO() + budget if budget else None
    fds, pids = {}, []
    for _ in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for f in fds:
                os.close(f)
            _worker(P, seed, tier, total, take, best, w, stop_at)
            os._exit(0)
        os.close(w)
        fds[r] = b""
        pids.append(pid)
    error = None
    finished = 0
    open_fds = set(fds)
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [])
        for f in ready:
            b = os.read(f, 1 << 18)
            if not b:
                open_fds.discard(f)
                continue
            buf = fds[f] + b
            while len(buf) >= 4:
                n = struct.unpack("<I", buf[:4])[0]
                if len(buf) < 4 + n:
                    break
                msg = pickle.loads(buf[4: 4 + n])
                buf = buf[4 + n:]
                if msg is None:
                    finished += 1
                elif msg[0] == "error":
                    error = error or msg[1]
                else:
                    on_result(*msg)
            fds[f] = buf
    for p in pids:
        os.waitpid(p, 0)
    for f in fds:
        os.close(f)
    if error:
        raise HarnessError(error)
    if finished < workers:
        raise HarnessError("a worker ended early")


# -------------------------------------------------------------------------------------------- minimise
def minimise(P, case, viol, seconds):
    """Greedy: take the first smaller case that still shows the same clause, until none does."""
    end = MONO() + seconds
    tried = 0

    def fails(c):
        try:
            v = run_case(P, c)["viol"]
        except HarnessError:
            return None
        return v if v and v["clause"] == viol["clause"] else None

    progress = True
    while progress and MONO() < end:
        progress = False
        for c in P.shrink(case):
            if MONO() > end:
                break
            tried += 1
            v = fails(c)
            if v:
                case, viol, progress = c, v, True
                break
    return case, viol, tried


def in_child(fn):
    """Run fn in a child process with the library loaded; returns its value."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            quiet_process()
            _send(w, ("ok", fn()))
        except BaseException:
            _send(w, ("err", traceback.format_exc()))
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 1 << 18)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    if len(data) < 4:
        raise HarnessError("a helper process died")
    kind, v = pickle.loads(data[4:])
    if kind == "err":
        raise HarnessError(v)
    return v


def drop_one(xs, smallest=0):
    """Shorter versions of a list: halves, quarters, ..., single items left out."""
    n = len(xs)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            c = xs[:i] + xs[i + size:]
            if len(c) >= smallest and len(c) < n:
                yield c
        size //= 2


# ---------------------------------------------------------------------------------------------- report
def load_findings():
    path = os.path.join(ROOT, "known-findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("status") == "known":
                    out.append(d)
    return out


def jdump(o):
    return json.dumps(o, sort_keys=True)


def blake(s):
    return hashlib.blake2b(s.encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()


def main(pid, argv):
    t0 = MONO()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    P = load(pid)
    if argv[:1] == ["--replay"]:
        return replay(P, pid, argv[1])
    workers = int(os.environ.get("SIM_WORKERS", "8"))
    total = int(os.environ.get("SIM_RUNS", P.RUNS[1] if tier == "thorough" else P.RUNS[0]))
    budget = float(os.environ.get("SIM_BUDGET", "780" if tier == "thorough" else "240"))

    agg = {"runs": 0, "faults": {}, "counts": {}, "sim_s": 0.0, "keys": set(), "measures": {}, "logs": {},
           "samples": {}, "viols": []}

    def on_result(i, case, res):
        agg["runs"] += 1
        for k, n in res.get("faults", {}).items():
            agg["faults"][k] = agg["faults"].get(k, 0) + n
        for k, n in res.get("counts", {}).items():
            agg["counts"][k] = agg["counts"].get(k, 0) + n
        agg["sim_s"] += res.get("sim_s", 0.0)
        if res.get("key") is not None:
            agg["keys"].add(res["key"])
        for k, vs in res.get("measures", {}).items():
            agg["measures"].setdefault(k, set()).update(vs)
        agg["logs"][i] = res.get("log", "")
        if case is not None and not res["viol"] and i < 3:
            agg["samples"][i] = {"run": i, "case": case, "observed": res.get("sample")}
        if res["viol"]:
            agg["viols"].append((i, case, res["viol"]))

    explore(P, seed, tier, total, workers, budget, on_result)
    explore_s = MONO() - t0
    if not agg["viols"] and agg["runs"] < min(total, 10):
        raise HarnessError("only %d runs were made" % agg["runs"])

    known = load_findings()
    found = []
    suppressed = {}
    for i, case, viol in sorted(agg["viols"], key=lambda v: v[0]):
        m = next((k for k in known if k["property"] == pid and P_matches(k, viol)), None)
        if m:
            suppressed[m["id"]] = m
        else:
            found.append((i, case, viol))
    for k in known:
        if k["property"] == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    rc = 0
    nviol = 0
    if found:
        i, case, viol = found[0]
        nviol = len(found)
        seconds = float(os.environ.get("SIM_SHRINK", "60"))

        def work():
            prepare(P)
            got = run_case(P, case)
            first = got["viol"]
            again = bool(first) and first["clause"] == viol["clause"]
            start, v0 = case, viol
            if again and hasattr(P, "explicit"):
                e = P.explicit(case, got)
                ve = run_case(P, e)["viol"]
                if not ve or ve["clause"] != viol["clause"]:
                    raise HarnessError("the recorded schedule does not repeat: %r" % (ve,))
                start, v0 = e, ve
            c, v, n = minimise(P, start, v0, seconds) if again else (case, viol, 0)
            return c, v, n, again

        small, v, tried, again = in_child(work)
        if not again:
            raise HarnessError("run %d of seed %d does not repeat: %r" % (i, seed, viol))
        path = os.path.join(ROOT, "replays", "%s-seed%d-run%d.json" % (pid, seed, i))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, "tier": tier, "run": i, "clause": v["clause"],
                       "detail": v["detail"], "case": small, "minimised": {"tried": tried},
                       "original_case": case}, f, indent=1)
            f.write("\n")
        # The replay file must fail the same way in a fresh process.
        import subprocess

        p = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), pid, "--replay", path],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        if p.returncode != 1:
            raise HarnessError("the replay of %s ended with %d: %s%s" % (
                path, p.returncode, p.stdout.decode()[-2000:], p.stderr.decode()[-2000:]))
        print("%s broken: %s (seed %d, run %d): %s" % (pid, v["clause"], seed, i, v["detail"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    wall = MONO() - t0
    log = blake("".join(agg["logs"][i] for i in sorted(agg["logs"])))
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(agg["keys"]),
        "rule": P.RULE,
        "samples": [agg["samples"][i] for i in sorted(agg["samples"])],
        "planned_runs": total,
        "runs_per_hour": int(agg["runs"] / explore_s * 3600),
        "seeds_per_hour": int(agg["runs"] / explore_s * 3600),
        "seed_of_run_i": "VERIF_SEED/%s/i" % pid,
        "simulated_time_s": int(agg["sim_s"]),
        "faults_fired": dict(sorted(agg["faults"].items())),
        "probes": dict(sorted(agg["counts"].items())),
        "distinct": {k: len(v) for k, v in sorted(agg["measures"].items())},
        "event_log_digest": log,
        "workers": workers,
        "real_code": "all of /repo/aeromet_py, unmodified, through Metar(...), Taf(...) and their public answers",
        "stubs": P.STUBS,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
                   "level": P.LEVEL, "coverage": cov, "assumptions": P.ASSUMPTIONS, "wall_s": round(wall, 2),
                   "violations": nviol}, f, indent=1, sort_keys=True)
        f.write("\n")
    if rc == 0:
        print("%s held in %d runs (%d distinct non-trivial), event log %s, %.1f s" % (
            pid, agg["runs"], len(agg["keys"]), log, wall))
    return rc


def P_matches(k, viol):
    return k.get("clause") in (None, viol["clause"]) and all(s in viol["detail"] for s in k.get("match", []))


def replay(P, pid, path):
    d = json.load(open(path))

    def work():
        prepare(P)
        return run_case(P, d["case"])

    res = in_child(work)
    v = res["viol"]
    if v and v["clause"] == d["clause"]:
        same = v["detail"] == d["detail"]
        print("%s: %s" % (v["clause"], v["detail"][:1500]))
        print("replayed %s" % ("exactly" if same else "with another detail than recorded"))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("the recorded violation does not occur: %r" % (v,))
    return 0
