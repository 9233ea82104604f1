"""C10  Line damage never makes decoding or reading fail."""
from .. import stream, world

RUNS = (6000, 90000)
LEVEL = "exploration"
STUBS = stream.STUBS
ASSUMPTIONS = ["the text is ASCII and not empty", "a given year is between 1900 and 2100"]
RULE = ("A run is a stream of 1 to 10 reports of simulated stations received in one process after link faults "
        "(loss, garbling, repetition, swapping, splitting, merging of groups and characters, cuts at either end, "
        "control characters, run-together bulletins, foreign groups), all drawn from the run's seed; everything a "
        "caller can read of each report is read. Non-trivial: at least one fault fired; distinct by the digest of "
        "all decoded outcomes.")


def gen(seed, i, tier):
    r = world.new_rng(seed, "C10", i)
    case = stream.gen(r, r.randint(1, 10), stream.DAMAGE, rate=0.95, storm=0.5, max_ops=r.choice([3, 6, 12, 30]), trunc=0.0)
    for m in case["msgs"]:
        p = r.random()
        if p < 0.2:
            m["year"], m["month"] = r.choice([1900, 2100, r.randint(1900, 2100)]), r.randint(1, 12)
        elif p < 0.3:
            m["year"], m["month"] = None, r.choice([2, r.randint(1, 12)])
        elif p < 0.4:
            m["year"], m["month"] = r.randint(1900, 2100), None
    return case


def judge(m, req, units, o, at, res):
    if "raised" in o:
        return "decode-raised", "decoding raised %s: %s" % (o["raised"]["!exc"], o["raised"]["msg"])
    if o["errors"]:
        p, e, msg = o["errors"][0]
        return "read-raised", "reading %s raised %s: %s" % (p, e, msg)


def run(case, fork):
    return stream.check_stream(case, fork, judge)


shrink = stream.shrink
