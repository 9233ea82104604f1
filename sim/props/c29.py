"""C29  A process forked from a busy one serves as a fresh one."""
from .. import conc, history, observe, reading, sched, stream, world
from ..runner import died
from . import c02, c28

RUNS = (900, 20000)
LEVEL = "fault_enumeration"
STUBS = c28.STUBS
ASSUMPTIONS = c28.ASSUMPTIONS + ["a process is forked by the system call of that name, after which only the forking thread goes on; "
                                 "what the library asks for with os.register_at_fork is done"]
RULE = ("A run is a receiver process with 2 to 4 threads that decode, read, modify and are interrupted as in C28, and 1 to 6 "
        "times one of them forks the process: while the others are stopped wherever the run's seed stopped them, between two "
        "things of its own or in the middle of a decode of its own. The forked process reads every published report and "
        "decodes 1 to 3 reports; each outcome there, and all those of the parent, must be that of a pristine process, and the "
        "forked process may not wait for a thread that stayed behind. In every sixth run all that pristine processes, which "
        "are forks themselves, are asked is put to a newly started interpreter, too. Non-trivial: a fork with another thread stopped inside "
        "the library; distinct by the digest of the work and of the sequence of switches.")


def gen(seed, i, tier):
    r = world.new_rng(seed, "C29", i)
    src = history.Source(r, damage=0.3)
    src.pool.stations = r.sample(world.EARLY, 2)
    known = []

    def query():
        q = dict(r.choice(known)) if known and r.random() < 0.4 else c28.g_query(r, src, known[-1] if known else None)
        known.append(q)
        return q

    def alone():
        """For the forked process, whose clock nobody else sets: year and month may be left to it."""
        q = query()
        return dict(q, year=None, month=None) if r.random() < 0.3 else q

    first = [query() for _ in range(r.choice([0, 0, 1, 2]))]
    threads, n = [], r.choice([2, 2, 3, 4])
    for k in range(n):
        ops = []
        for _ in range(r.choice([1, 2, 3, 4])):
            p = r.random()
            if p < 0.45:
                op = {"do": "decode", "q": query()}
            elif p < 0.65:
                op = {"do": "fork", "qs": [alone() for _ in range(r.choice([1, 1, 2, 3]))]}
            elif p < 0.72:
                op = dict(c28.g_place(r), do="fork-inside", q=query(), qs=[alone() for _ in range(r.choice([1, 1, 2]))])
            elif p < 0.82:
                op = dict(c28.g_place(r), do="cut", q=query(), exc=r.choice(sched.INTERRUPTS), dies=r.random() < 0.2)
            elif p < 0.9:
                op = {"do": "read", "i": r.randrange(8),
                      "prog": [{"do": "all"}] if r.random() < 0.4 else reading.g_program(r, r.choice([1, 3, 8]))}
            elif p < 0.96:
                op = {"do": "spoil", "i": r.randrange(8), "how": r.choice(history.SPOILS),
                      "what": r.choice(["both", "dicts", "lists"])}
            else:
                op = {"do": "clock", "at": stream.us_of(world.random_instant(r, 1975, 2085)), "tz": r.choice([0, 330, -600])}
            ops.append(op)
        threads.append(ops)
    if not any(op["do"] == "fork" for ops in threads for op in ops):
        threads[-1].insert(r.randrange(len(threads[-1]) + 1), {"do": "fork", "qs": [alone()]})
    return {"at": stream.us_of(src.t), "first": first, "threads": threads, "last": [query()],
            "sched": conc.g_schedule(r, n, r.choice([300, 2000, 4000])), "new": i % 6 == 3}


def run(case, fork):
    res = c28.run(case, fork)
    if case["new"] and not res["viol"]:
        qs = list({observe.digest(q): q for q in c28.asked(case)}.values())
        got = c02.fresh({"import_us": case["at"], "requests": qs}, 0)
        stream.add(res["faults"], {"new-process": 1})
        for q, g in zip(qs, got if isinstance(got, list) else [got] * len(qs)):
            o = fork(history.outcome, q)
            if not died(o) and g != observe.digest(o) and not res["viol"]:
                res["viol"] = {"clause": "new", "detail": "%s gives another report in a forked process than in a newly "
                               "started one" % history.show(q)}
    if not res["faults"].get("fork-with-others-inside"):
        res["key"] = None
    return res


explicit = conc.explicit


def shrink(case):
    yield from c28.shrink(case)
    if case["new"]:
        yield dict(case, new=False)
