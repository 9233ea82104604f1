"""C23  Station data belong to the station code."""
from .. import ref, stream, world
from ..runner import died

RUNS = (3000, 45000)
LEVEL = "exploration"
STUBS = stream.STUBS
ASSUMPTIONS = [
    "the text is ASCII and not empty",
    "the table is what the library's own database functions give in a process that has decoded nothing",
]
RULE = ("A run is a stream of 2 to 16 reports of stations drawn from the whole table (or unknown to it), decoded one after "
        "another in one process after link faults (station codes lost, garbled, repeated, swapped with other groups) drawn from the "
        "run's seed. Whatever station a report names, all its data must be those of one table entry with that ICAO code, "
        "and absent without one. Non-trivial: at least one fault fired and at least two stations were found; distinct by the "
        "digest of all decoded outcomes.")
FIELDS = ("name", "icao", "iata", "synop", "latitude", "longitude", "elevation")
_table = []


def read_table():
    """ICAO code -> entries as [name, icao, iata, synop, latitude, longitude, elevation, country]."""
    import importlib

    rows = {}
    try:
        db = importlib.import_module("aeromet_py.database")
        for s in db.get_stations():
            if s[1] != "None":
                rows.setdefault(s[1], []).append([s[k] for k in range(7)] + [db.get_country(s[7])])
    except (ImportError, AttributeError, LookupError, TypeError):
        rows = {}
    known = {c: [v[0], c] + list(v[1:]) for c, v in ref.STATIONS.items()}
    if sum(1 for c, v in known.items() if any(row[:7] == v for row in rows.get(c, []))) < len(known) / 2:
        # not laid out as it was: what this check itself knows of some stations has to do
        return {c: [v] for c, v in known.items()}, False
    return rows, True


def table(fork):
    if not _table:
        t = fork(read_table)
        if died(t):
            raise RuntimeError("cannot read the table of stations: %s" % t["!died"])
        _table.extend([t[0], sorted(t[0]), t[1]])
    return _table


def place(case, codes):
    """The case with the stations it draws put in."""
    msgs = []
    for m in case["msgs"]:
        if m["station"] is not None:
            m = dict(m, units=[dict(u, t=codes[int(m["station"] * len(codes))]) if u["k"] == "station" else u
                               for u in m["units"]])
        msgs.append(m)
    return dict(case, msgs=msgs)


def gen(seed, i, tier):
    r = world.new_rng(seed, "C23", i)
    case = stream.gen(r, r.randint(2, 16), stream.DAMAGE, rate=0.6, storm=0.1, max_ops=r.choice([2, 4, 12]))
    picks = [r.random() for _ in range(r.choice([2, 4, 16]))]
    for m in case["msgs"]:
        m["station"] = r.choice(picks) if r.random() < 0.8 else None
        if m["station"] is not None and r.random() < 0.3:  # a neighbour in the table, or not far from it
            m["station"] = min(0.999999, max(0.0, m["station"] + r.choice([1, -1, 3, 26]) / 9184.0))
        m["units"] = m["units"][:r.choice([2, 3, 5, 40])]
        ids = {u["u"] for u in m["units"]}
        m["ops"] = [op for op in m["ops"] if "u" not in op or op["u"] in ids]
        st = [u for u in m["units"] if u["k"] == "station"]
        if st and r.random() < 0.3:
            m["ops"].append({"op": "typo", "u": st[0]["u"], "pos": r.randrange(4), "ch": r.choice("ABEKLPQSXZ0189")})
    return case


def judge_for(rows, whole):
    def judge(m, req, units, o, at, res):
        if "report" not in o:
            return None
        s = o["report"]["station"]
        code = s["code"]
        got = [s[f] for f in FIELDS] + [s["country"]]
        known = rows.get(code, []) if code is not None else []
        if known:
            stream.add(res["counts"], {"stations-found": 1})
            if not any(got[:len(k)] == k for k in known):
                return "entry", "the station %r has %r, its entry is %r" % (code, got, known[0])
        else:
            stream.add(res["counts"], {"stations-unknown": 1})
            if whole and any(v is not None for v in got):
                return "no-entry", "the station %r, which has no entry, has %r" % (code, got)
    return judge


def run(case, fork):
    rows, codes, whole = table(fork)
    res = stream.check_stream(place(case, codes), fork, judge_for(rows, whole))
    if res["counts"].get("stations-found", 0) < 2:
        res["key"] = None
    return res


def shrink(case):
    yield from stream.shrink(case)
    for i, m in enumerate(case["msgs"]):
        if m["station"] is not None:
            yield dict(case, msgs=case["msgs"][:i] + [dict(m, station=None)] + case["msgs"][i + 1:])
