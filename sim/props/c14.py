"""C14  Decoding always makes progress."""
import time

from .. import boot, observe, sched, stream, wire, world
from ..runner import died, drop_one

RUNS = (1300, 24000)
LEVEL = "exploration"
STUBS = stream.STUBS
FIXED = 400_000
PER_GROUP = 10_000
CPU = 10
CPU_AVALANCHE = 30
ASSUMPTIONS = [
    "work is counted in lines, jumps, branches and calls of the library executed; work inside single calls into the "
    "interpreter's C code (regular expressions, string methods) is only bounded by CPU time: %d s for a step that takes "
    "well under 1 s, %d s for one of 40,000 groups that takes under 2 s, and such a one may take at most 20 times the "
    "CPU time of one of 5,000 groups plus 4 s" % (CPU, CPU_AVALANCHE),
    "fixed amount: %d; per group: %d (an ordinary report takes about 65,000, most of them for the station table, and "
    "40 to 1,700 for each group)" % (FIXED, PER_GROUP),
]
RULE = ("A run feeds one receiver 1 to 4 hostile texts (the same groups repeated up to 6,400 times, words of up to 2,000 "
        "characters that almost match, heavily damaged reports, character soup, impossible dates; one run in 40: 5,000 and "
        "40,000 groups, in every batch the same kinds) and then an intact report. Work is bounded absolutely and, for floods, may grow at most in proportion "
        "to the number of groups (doubling the added groups may at most add 2.5 times the work); the intact report must decode as in a fresh process. Non-trivial: always; distinct by the digest "
        "of texts, line counts and the last outcome.")
MASSES = ["1 1/2SM", "WS R07", "WS ALL RWY", "PROB40 TEMPO", "RMK", "NOSIG", "TEMPO", "FM101200", "BECMG FM1200 TL1300",
          "BECMG 1012/1013", "RA", "BKN010", "TX20/1012Z", "PROB30", "TAF", "Q1013", "R07/0800"]
SOUP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/+-_|=#. "


def token(r, units):
    p = r.random()
    if p < 0.1:
        return r.choice(MASSES)
    if p < 0.5 and units:
        return r.choice(units)["t"]
    if p < 0.85:
        return r.choice(wire.NOISE)
    return "".join(r.choice(SOUP.strip()) for _ in range(r.randint(1, 9)))


def long_word(r, units):
    base = token(r, units).replace(" ", "_") or "9"
    i = r.randrange(len(base))
    j = r.randint(i + 1, min(len(base), i + 4))
    n = r.choice([20, 28, 40, 200, 2000]) // (j - i)
    return base[:j] + base[i:j] * n + r.choice(["", "", base[j:], "#", "X", "/", "0"]) + (
        base[j:] if r.random() < 0.3 else "")


def ym(r, issue):
    p = r.random()
    if p < 0.4:
        return issue.year, issue.month
    if p < 0.6:
        return r.randint(1900, 2100), r.choice([2, 2, r.randint(1, 12)])
    return None, None


def gen(seed, i, tier):
    r = world.new_rng(seed, "C14", i)
    pool, uid = world.Pool(r), world.Uids()
    t = world.random_instant(r)
    steps = []
    for _ in range(r.randint(1, 4)):
        kind = r.choice(["Metar", "Taf"])
        units = world.report(r, kind, t, uid, pool)
        y, mth = ym(r, t)
        s = {"kind": kind, "year": y, "month": mth, "truncate": r.random() < 0.2,
             "at": stream.us_of(t) + r.choice([0, 0, r.randint(0, 400) * 86400 * 1000000]),
             "tz": r.choice([0, 840, -720])}
        p = r.random()
        if p < 0.5:
            k = r.randint(0, len(units))
            s["how"] = "flood"
            s["head"] = [u["t"] for u in units[:k]] if r.random() < 0.8 else []
            s["cycle"] = [token(r, units) for _ in range(r.choice([1, 1, 2, 3, 5]))]
            s["tail"] = [u["t"] for u in units[k:]] if r.random() < 0.5 else []
            s["n"] = r.choice([25, 50, 100, 200]) if r.random() < 0.9 else 1600 // len(s["cycle"])
            s["distinct"] = r.random() < 0.3
        elif p < 0.7:
            s["how"] = "word"
            ws = [u["t"] for u in units]
            for _ in range(r.randint(1, 8)):
                ws.insert(r.randint(0, len(ws)), long_word(r, units))
            s["words"] = ws if r.random() < 0.5 else [w for w in ws if len(w) > 15] + ws[:2]
        elif p < 0.9:
            s["how"] = "damage"
            ops = wire.g_ops(r, units, stream.DAMAGE, r.choice([5, 20, 60]), world.text(units))
            s["words"] = [wire.render({"units": units, "ops": ops})[0] or "X"]
        else:
            s["how"] = "soup"
            s["words"] = ["".join(r.choice(SOUP) for _ in range(r.choice([3, 30, 300, 3000]))) + "X"]
        steps.append(s)
    if i % 40 == 20:
        # The same kinds of avalanche in every batch, whatever the seed
        s = steps[-1]
        k = i // 40
        s.update(how="avalanche", head=[u["t"] for u in units[:4]], tail=[], n=40000, distinct=k % 3 == 2,
                 cycle=[MASSES[k // 2 % len(MASSES)] if k % 2 else token(r, units)])
        s["kind"] = "Taf" if s["cycle"][0][:2] in ("FM", "PR", "TX") else s["kind"]
        s["n"] //= len(s["cycle"][0].split())
        del steps[:-1]
    t = t + stream.TD(hours=r.randint(1, 40))
    kind = r.choice(["Metar", "Taf"])
    last = {"kind": kind, "text": world.text(world.report(r, kind, t, uid, pool)), "year": t.year, "month": t.month,
            "truncate": False}
    return {"steps": steps, "last": last}


def texts(s):
    if s["how"] in ("flood", "avalanche"):
        for k in (8, 16, 32) if s["how"] == "flood" else (1, 8):
            n = s["n"] * k // 8
            mid = ["%s%d#" % (w, j) for j in range(n) for w in s["cycle"]] if s["distinct"] else s["cycle"] * n
            yield " ".join(s["head"] + mid + s["tail"])
    else:
        yield " ".join(s["words"])


def intact(last):
    boot.CLOCK.set(0)
    return observe.outcome(boot.LIB, last)


def receive(case):
    out = []
    for s in case["steps"]:
        counts = []
        for text in texts(s):
            boot.CLOCK.set(s["at"], s["tz"])
            go = lambda: observe.decode(boot.LIB, s["kind"], text, s["year"], s["month"], s["truncate"])
            if s["how"] == "avalanche":
                n = CPU_AVALANCHE
                for _ in range(3 if not counts else 1):
                    t = time.process_time()
                    try:
                        go()
                    except Exception:
                        pass
                    n = min(n, time.process_time() - t)
            else:
                if s["how"] == "flood" and not counts:
                    sched.count_points(go)  # what is built once and for all on first use is no growth
                _, _, n = sched.count_points(go)
            counts.append(n)
        out.append(counts)
    return out, intact(case["last"])


def show(s, text):
    return "%s(%s, year=%s, month=%s%s)" % (s["kind"], observe.brief(repr(text), 300), s["year"], s["month"],
                                            ", truncate=True" if s["truncate"] else "")


def run(case, fork):
    res = {"faults": {}, "counts": {"floods": 0}, "sim_s": 0.0, "viol": None, "measures": {"texts": set()}}
    cpu = CPU_AVALANCHE if any(s["how"] == "avalanche" for s in case["steps"]) else CPU
    outs = fork(receive, case, cpu=cpu)
    for s in case["steps"]:
        stream.add(res["faults"], {s["how"]: 1})
    base = fork(intact, case["last"])
    if died(outs):
        which = "one of the texts"
        for s in case["steps"]:
            if died(fork(receive, dict(case, steps=[s]), cpu=cpu)):
                which = show(s, list(texts(s))[-1])
                break
        res["viol"] = {"clause": outs["!died"].split()[0], "detail": "%s within %d s of CPU time while decoding %s" % (
            outs["!died"], cpu, which)}
        res["log"] = "died"
        return res
    outs, after = outs
    log = []
    for s, counts in zip(case["steps"], outs):
        ts = list(texts(s))
        log.append([observe.digest(ts[-1]), counts if s["how"] != "avalanche" else 0])
        res["measures"]["texts"].add(observe.digest(ts[-1])[:12])
        stream.add(res["counts"], {"groups": sum(len(t.split()) for t in ts)})
        if s["how"] == "avalanche":
            small, large = counts
            if not res["viol"] and large > 20 * small + 4:
                res["viol"] = {"clause": "time", "detail": "%s: %d groups take more than 20 times the CPU time of %d" % (
                    show(s, ts[0]), len(ts[1].split()), len(ts[0].split()))}
            continue
        stream.add(res["counts"], {"lines": sum(counts)})
        if res["viol"]:
            continue
        for t, n in zip(ts, counts):
            limit = FIXED + PER_GROUP * len(t.split())
            if n > limit:
                res["viol"] = {"clause": "work", "detail": "%s: %d lines, jumps and calls for %d groups" % (
                    show(s, t), n, len(t.split()))}
                break
        if s["how"] == "flood":
            res["counts"]["floods"] += 1
            a, b, c = counts
            if not res["viol"] and c - b > 2.5 * max(0, b - a) + 3000:
                res["viol"] = {"clause": "growth", "detail": "%s: %d, %d and %d lines, jumps and calls for %r groups" % (
                    show(s, ts[0]), a, b, c, [len(t.split()) for t in ts])}
    if not res["viol"] and after != base:
        res["viol"] = {"clause": "after", "detail": "after the damage %s: %s" % (
            stream.describe(case["last"], case["last"]), observe.diff_text(base, after))}
    res["log"] = observe.digest([log, after])
    res["key"] = res["log"]
    res["sample"] = [show(s, list(texts(s))[0]) for s in case["steps"][:2]]
    return res


def shrink(case):
    for ss in drop_one(case["steps"], 1):
        yield dict(case, steps=ss)
    for i, s in enumerate(case["steps"]):
        put = lambda s2: dict(case, steps=case["steps"][:i] + [s2] + case["steps"][i + 1:])
        for k in ("head", "tail", "cycle", "words"):
            if s.get(k):
                for x in drop_one(s[k], 1 if k in ("cycle", "words") else 0):
                    yield put(dict(s, **{k: x}))
        if s.get("n", 0) > 25 and s["how"] == "flood":
            yield put(dict(s, n=s["n"] // 2))
        if s.get("distinct"):
            yield put(dict(s, distinct=False))
        if s.get("truncate"):
            yield put(dict(s, truncate=False))
        if s.get("words"):
            for j, w in enumerate(s["words"]):
                if len(w) > 3:
                    for x in drop_one(w, 1) if len(w) <= 64 else (w[: len(w) // 2], w[len(w) // 2:]):
                        yield put(dict(s, words=s["words"][:j] + [x] + s["words"][j + 1:]))
