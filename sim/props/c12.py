"""C12  Damage stays contained and decoded values mean what their code says."""
from .. import boot, observe, ref, stream, wire, world
from ..accounting import norm
from ..runner import died

RUNS = (5000, 80000)
LEVEL = "exploration"
STUBS = stream.STUBS + "; the reference reader of group codes (sim/ref.py) is written by hand"
ASSUMPTIONS = [
    "values are compared with the reference within 0.04 % (precision of published conversion factors)",
    "containment is checked for losses, garbling with characters no report uses, and cuts at the end; keywords that "
    "open a section are not hit; a group that another group of the same form may replace is not judged",
]
RULE = ("A run is a stream of 1 to 6 reports, each decoded undamaged and after link faults drawn from the run's "
        "seed, in one process: every decoded group against the reference meaning of its own code, and (when only "
        "losses, garbling and cuts hit) every intact group against the undamaged decode, in order, section by "
        "section. Non-trivial: at least one fault fired; distinct by the digest of all decoded outcomes.")
SOFT = ("lose", "garble", "cut_tail")
SLOT = {"type": "type_", "station": "station", "time": "time", "modifier": "modifier", "wind": "wind",
        "windvar": "wind_variation", "vis": "prevailing_visibility", "minvis": "minimum_visibility",
        "temps": "temperatures", "press": "pressure", "recent": "recent_weather", "sea": "sea_state",
        "rwy": "runway_state", "valid": "valid", "nil": "missing", "cnl": "cancelled"}
LSLOT = {"rvr": "runway_ranges", "wx": "weathers", "cloud": "clouds", "ws": "windshears"}


def gen(seed, i, tier):
    r = world.new_rng(seed, "C12", i)
    soft = r.random() < 0.75
    case = stream.gen(r, r.randint(1, 6), list(SOFT) if soft else stream.DAMAGE, rate=0.9,
                      max_ops=r.choice([3, 6, 12]), layouts=0.0 if soft else 0.2)
    case["soft"] = soft
    if soft:
        for m in case["msgs"]:
            safe = {u["u"] for u in m["units"] if u["k"] not in ("kw", "rmk")}
            m["ops"] = [op for op in m["ops"] if op["op"] == "cut_tail" or op.get("u") in safe]
    return case


def receive(case):
    out = []
    for at, n, m in stream.arrivals(case):
        req, _, _ = stream.request(m)
        if not req["text"]:
            out.append(None)
            continue
        clean = dict(req, text=world.text(m["units"]))
        res = []
        for q in (clean, req):
            boot.CLOCK.set(at, case["tz_min"])
            res.append(observe.outcome(boot.LIB, q))
        out.append(res)
    return out


def fate(m, text):
    """Units with their state after the ops, including the cut: ok, garbled, cut, or gone."""
    us, _ = wire.apply_units(m["units"], m["ops"])
    full = " ".join(u["t"] for u in us)
    if not full.startswith(text):
        return None
    pos, out = 0, []
    for u in us:
        end = pos + len(u["t"])
        if end > len(text):
            if pos >= len(text):
                break
            u = dict(u, state="cut", t=text[pos:])
        out.append(u)
        pos = end + 1
    return out


def sections(snap):
    yield snap
    for p in ("weather_trends", "changes_forecasted"):
        for x in (snap.get(p) or {}).get("items", []):
            yield x


def same(a, b):
    return not observe.diff(a, b, limit=1)


def contained(m, clean, dam, text, res):
    us = fate(m, text)
    if us is None:
        return None
    state = {u["u"]: u["state"] for u in us}
    ok = lambda u: state.get(u["u"]) == "ok"
    body_time = [u for u in m["units"] if u["k"] == "time"]
    station = [u for u in m["units"] if u["k"] == "station"]
    time_ok = all(ok(u) for u in body_time)
    valid_ok = all(ok(u) for u in m["units"] if u["k"] == "valid" and u["sec"] == 0)
    cs, ds = list(sections(clean)), list(sections(dam))
    secs = {u["sec"] for u in m["units"] if isinstance(u["sec"], int)}
    nchg = 1 + max(secs or {0})
    if {u["sec"] for u in m["units"] if u["k"] == "kw"} != set(range(1, nchg)):
        return None  # not a report of the simulated world (met only while minimising)

    def chg_intact(k):
        return all(ok(u) for u in m["units"] if u["sec"] == k and u["k"] in ("kw", "valid", "period"))

    def opened(k):
        """The keyword that opens section k has arrived, with something after it."""
        kws = [u for u in m["units"] if u["sec"] == k and u["k"] == "kw"]
        if not kws or not all(ok(u) for u in kws) or us[-1]["u"] == kws[-1]["u"]:
            return False
        if us[1 if us[0]["t"] == "TAF" and len(us) > 1 else 0]["u"] == kws[0]["u"]:
            return False  # with nothing left before it, the change is all there is of the report: it is the body
        nxt = us[[u["u"] for u in us].index(kws[-1]["u"]) + 1]
        # the remarks are split off before the trends; `PROB40 <lost> TEMPO` is the keyword PROB40 TEMPO
        return nxt["sec"] != "R" and not (kws[-1]["t"].startswith("PROB") and nxt["t"].startswith("TEMPO"))

    for k in range(min(nchg, len(cs))):
        mine = [u for u in m["units"] if u["sec"] == k]
        if not any(ok(u) for u in mine):
            continue
        if k == 0 and station and not ok(station[0]) and not time_ok:
            continue  # any group of four letters may now be taken for the station
        c = cs[k]
        if not all(opened(j) for j in range(1, k + 1)):
            continue
        if k >= len(ds):
            return "section %d is gone" % k
        d = ds[k]
        what = "section %d" % k if k else "body"
        # single groups
        for kind, slot in SLOT.items():
            us_k = [u for u in mine if u["k"] == kind]
            if not us_k or slot not in c:
                continue
            if any(state.get(u["u"]) == "cut" for u in us_k):
                continue
            live = [u for u in us_k if ok(u)]
            if not live:
                continue
            if kind == "minvis" and not all(ok(u) for u in mine if u["k"] == "vis"):
                continue
            if kind == "valid" and (k or not time_ok):
                continue
            if kind == "vis" and any(state.get(u["u"]) == "cut" and u["k"] == "minvis" for u in us):
                continue
            g = d.get(slot)
            if kind == "press":
                if norm(g.get("code") or "") != norm(live[-1]["t"]):
                    return "%s: pressure is %r, received %r" % (what, g.get("code"), live[-1]["t"])
                if live[-1] is us_k[-1] and not same(c[slot], g):
                    return "%s.%s: %s" % (what, slot, observe.diff_text(c[slot], g))
            elif norm((c[slot] or {}).get("code") or "") != norm(live[0]["t"]):
                res["counts"]["undecoded-clean"] = res["counts"].get("undecoded-clean", 0) + 1
                continue
            elif not same(c[slot], g):
                return "%s.%s: %s" % (what, slot, observe.diff_text(c[slot], g))
            res["counts"]["groups-contained"] = res["counts"].get("groups-contained", 0) + 1
        # lists
        todo = [(LSLOT[kind], [u for u in mine if u["k"] == kind]) for kind in LSLOT]
        for w in "XN":
            todo.append(("max_temperatures" if w == "X" else "min_temperatures",
                         [u for u in mine if u["k"] == "txtn" and u["which"] == w]))
        for slot, us_k in todo:
            if not us_k or slot not in c:
                continue
            ci = c[slot]["items"]
            if len(ci) != len(us_k) or any(norm(x.get("code") or "") != norm(u["t"]) for x, u in zip(ci, us_k)):
                res["counts"]["undecoded-clean"] = res["counts"].get("undecoded-clean", 0) + 1
                continue
            want = [x for x, u in zip(ci, us_k) if ok(u)]
            have = d[slot]["items"]
            if slot.endswith("temperatures") and not time_ok:
                strip = lambda x: {"code": x["code"], "value": x["value"]}
                want, have = [strip(x) for x in want], [strip(x) for x in have]
            j = 0
            for x in want:
                while j < len(have) and not same(x, have[j]):
                    j += 1
                if j == len(have):
                    return "%s.%s: intact group %r is %r" % (
                        what, slot, x.get("code"), [y.get("code") for y in have])
                j += 1
                res["counts"]["groups-contained"] = res["counts"].get("groups-contained", 0) + 1
        # windows
        for slot in ("trend_indicator", "change_indicator"):
            if slot not in c or not k or not time_ok or not chg_intact(k):
                continue
            if slot == "change_indicator":
                if not valid_ok:
                    continue
                if (c[slot].get("code") or "").startswith("FM"):
                    later = [u for u in m["units"] if isinstance(u["sec"], int) and u["sec"] > k and u["k"] == "kw"]
                    nxt = [u for u in later if u["t"].startswith(("FM", "BECMG"))]
                    before = [u for u in later if not nxt or u["sec"] <= nxt[0]["sec"]]
                    if not all(chg_intact(u["sec"]) for u in before):
                        continue
            if not same(c[slot], d.get(slot)):
                return "%s.%s: %s" % (what, slot, observe.diff_text(c[slot], d.get(slot)))
            res["counts"]["windows-contained"] = res["counts"].get("windows-contained", 0) + 1
    return None


def codes(x, path="report"):
    if isinstance(x, dict):
        if isinstance(x.get("code"), str) and x.get("!class") not in ("ChangePeriod", "ChangeForecasted"):
            yield path, x["code"]
        for k, v in x.items():
            if k not in ("!dict", "!json") and isinstance(v, (dict, list)):
                yield from codes(v, path + "." + k)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from codes(v, "%s[%d]" % (path, i))


def garbled(m, dam, text, res):
    us = fate(m, text)
    if us is None:
        return None
    bad = [w for u in us if u["state"] == "garbled" and u["sec"] != "R"
           for w in norm(u["t"]) if any(ch in wire.GARBAGE for ch in w)]
    seen = {w for g in dam["unparsed_groups"] for w in norm(g)}
    for w in bad:
        if w not in seen:
            return "the garbled group %r is not among the unparsed %r" % (w, dam["unparsed_groups"])
        res["counts"]["garbled-reported"] = res["counts"].get("garbled-reported", 0) + 1
    if bad:
        for p, code in codes(dam):
            if p.endswith(("items", "weather_trends", "changes_forecasted")):
                continue
            if not isinstance(code, str) or not any(ch in wire.GARBAGE for ch in code):
                continue
            if any(w in bad for w in norm(code)):
                return "the garbled %r was decoded as data of %s" % (code, p)
    return None


def run(case, fork):
    outs = fork(receive, case)
    res = {"faults": {}, "counts": {}, "sim_s": stream.sim_seconds(case), "viol": None,
           "measures": {"texts": set(), "outcomes": set()}}
    if died(outs):
        res["viol"] = {"clause": outs["!died"].split()[0], "detail": outs["!died"]}
        return res
    log = []
    for (at, n, m), o in zip(stream.arrivals(case), outs):
        if o is None:
            continue
        req, us, fired = stream.request(m)
        stream.add(res["faults"], fired)
        log.append(observe.digest(o))
        res["measures"]["texts"].add(observe.digest(req)[:12])
        res["measures"]["outcomes"].add(log[-1][:12])
        if res["viol"] or any("raised" in x for x in o):
            continue
        clean, dam = o[0]["report"], o[1]["report"]
        v = None
        for snap in (clean, dam):
            bad, k = ref.check_groups(snap)
            res["counts"]["values-checked"] = res["counts"].get("values-checked", 0) + k
            if bad and not v:
                v = ("value", bad[0])
        if not v and case["soft"]:
            e = contained(m, clean, dam, req["text"], res)
            v = ("spread", e) if e else None
            if not v:
                e = garbled(m, dam, req["text"], res)
                v = ("garbled", e) if e else None
        if v:
            res["viol"] = {"clause": v[0], "detail": "%s: %s" % (stream.describe(m, req), v[1])}
    res["key"] = observe.digest(log) if res["faults"] else None
    res["log"] = observe.digest(log)
    res["sample"] = [stream.describe(m) for _, _, m in stream.arrivals(case)[:2]]
    return res


shrink = stream.shrink
