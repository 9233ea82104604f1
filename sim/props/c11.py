"""C11  Every received group is accounted for exactly once."""
from .. import accounting, stream, world

RUNS = (6000, 90000)
LEVEL = "exploration"
STUBS = stream.STUBS
ASSUMPTIONS = ["the text is ASCII and not empty", "groups are compared as words; '=' is the end-of-message sign",
               "the type shown for a report that came without one is not a received group",
               "a second pressure group replaces the first"]
RULE = ("A run is a stream of 1 to 8 reports after link faults drawn from the run's seed; the words received are "
        "counted against the words of all decoded codes and unparsed groups, of the raw text and of the sections. "
        "Non-trivial: at least one fault fired; distinct by the digest of all decoded outcomes.")


def gen(seed, i, tier):
    r = world.new_rng(seed, "C11", i)
    kinds = stream.DAMAGE if r.random() < 0.8 else list(("noise", "dup", "move", "swap"))
    return stream.gen(r, r.randint(1, 8), kinds, rate=0.9, storm=0.35, max_ops=r.choice([3, 6, 12, 30]),
                      given=r.choice([None, 1.0]))


def judge(m, req, units, o, at, res):
    if "raised" in o:
        return "not-decoded", "decoding raised %s: %s" % (o["raised"]["!exc"], o["raised"]["msg"])
    e = accounting.account(req["kind"], req["text"], o["report"])
    if e:
        return "unaccounted", e


def run(case, fork):
    return stream.check_stream(case, fork, judge)


shrink = stream.shrink
