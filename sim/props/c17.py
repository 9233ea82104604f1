"""C17  Dictionary and JSON forms agree with the report."""
import json

from .. import boot, observe, stream, world
from ..runner import died

RUNS = (5000, 80000)
LEVEL = "exploration"
STUBS = stream.STUBS
ASSUMPTIONS = [
    "the text is ASCII and not empty",
    "which property a dictionary key speaks of is taken from the documented key names (a table in this check)",
    "the dictionary of a TAF temperature carries no code and that of a pressure has no such key (both are fixed by "
    "the repository's tests)",
]
RULE = ("A run is a stream of 1 to 8 reports after link faults drawn from the run's seed; in every report and every "
        "object reachable from it the JSON text is read back strictly and compared with the dictionary, and every key "
        "of the dictionary with the property it stands for. Non-trivial: at least one fault fired; distinct by the "
        "digest of all decoded outcomes.")
LABELS = ["first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", ("nineth", "ninth"), "tenth"]
VIA = "!dict"


def P(name):
    return lambda s: s[name]


def D(name):
    """The dictionary of the object behind a property."""
    return lambda s: None if s[name] is None else s[name][VIA]


def L(name):
    return lambda s: [x[VIA] for x in s[name]["items"]]


def K(**kw):
    """A nested dictionary with these keys at least."""
    return kw


def T(name):
    return lambda s: s[name]["!t"].replace("T", " ")


def direction(card, deg, var=None):
    d = {"cardinal": P(card), "direction": P(deg), "units": lambda s: "degrees"}
    if var:
        d["variable"] = P(var)
    return d


def distance(p):
    return {"units": lambda s: "meters", "distance": P(p)}


def celsius(p):
    return {"units": lambda s: "celsius", "temperature": P(p)}


CODE = {"code": P("code")}
FORECAST = dict(CODE, wind=D("wind"), prevailing_visibility=D("prevailing_visibility"), weathers=L("weathers"),
                clouds=L("clouds"), flight_rules=P("flight_rules"))
VIS = dict(CODE, direction=direction("cardinal_direction", "direction_in_degrees"), visibility=distance("in_meters"))
REPORT = {"code": P("raw_code"), "sections": P("sections"), "unparsed_groups": P("unparsed_groups"),
          "type_": D("type_"), "station": D("station"), "time": D("time"), "modifier": D("modifier"),
          "wind": D("wind"), "prevailing_visibility": D("prevailing_visibility"), "weathers": D("weathers"),
          "clouds": D("clouds")}
TABLE = {
    "ReportType": dict(CODE, type=P("type_")),
    "Station": dict(CODE, name=P("name"), icao=P("icao"), iata=P("iata"), synop=P("synop"), latitude=P("latitude"),
                    longitude=P("longitude"), elevation=P("elevation"), country=P("country")),
    "Time": dict(CODE, datetime=T("time")),
    "Modifier": dict(CODE, modifier=P("description")),
    "Missing": dict(CODE, modifier=P("description"), is_missing=P("is_missing")),
    "Cancelled": dict(CODE, is_cancelled=P("is_cancelled")),
    "MetarWind": dict(CODE, direction=direction("cardinal_direction", "direction_in_degrees", "variable"),
                      speed={"units": lambda s: "knot", "speed": P("speed_in_knot")},
                      gust={"units": lambda s: "knot", "speed": P("gust_in_knot")}),
    "MetarWindVariation": dict(CODE, from_=direction("from_cardinal_direction", "from_in_degrees"),
                               to=direction("to_cardinal_direction", "to_in_degrees")),
    "MetarMinimumVisibility": VIS,
    "MetarPrevailingVisibility": dict(VIS, cavok=P("cavok")),
    "MetarRunwayRange": dict(CODE, name=P("name"), low_range=distance("low_in_meters"),
                             high_range=distance("high_in_meters"), trend=P("trend")),
    "MetarWeather": dict(CODE, intensity=P("intensity"), description=P("description"),
                         precipitation=P("precipitation"), obscuration=P("obscuration"), other=P("other")),
    "MetarRecentWeather": dict(CODE, description=P("description"), precipitation=P("precipitation"),
                               obscuration=P("obscuration"), other=P("other")),
    "Cloud": dict(CODE, cover=P("cover"), oktas=P("oktas"), height=P("height_in_meters"), type=P("cloud_type"),
                  height_units=lambda s: "meters"),
    "MetarTemperatures": dict(CODE, temperature=celsius("temperature_in_celsius"),
                              dewpoint=celsius("dewpoint_in_celsius")),
    "MetarPressure": {"units": lambda s: "hectopascals", "pressure": P("in_hPa")},
    "MetarWindshearRunway": dict(CODE, all=P("all_"), name=P("name")),
    "MetarSeaState": dict(CODE, state=P("state"), temperature=celsius("temperature_in_celsius"),
                          height=distance("height_in_meters")),
    "MetarRunwayState": dict(CODE, name=P("name"), deposits=P("deposits"), contamination=P("contamination"),
                             deposits_depth=P("deposits_depth"), surface_friction=P("surface_friction"),
                             snoclo=P("snoclo"), clrd=P("clrd")),
    "MetarTrendIndicator": dict(CODE, translation=P("translation"), from_=D("period_from"), until=D("period_until"),
                                at=D("period_at"),
                                forecast_period={"init": lambda s: s["forecast_period"][0][VIA],
                                                 "end": lambda s: s["forecast_period"][1][VIA]}),
    "ChangePeriod": FORECAST,
    "ChangeForecasted": FORECAST,
    "Valid": dict(CODE, from_=D("period_from"), until=D("period_until")),
    "TafChangeIndicator": dict(CODE, translation=P("translation"), valid=D("valid")),
    "TafTemperature": {"units": lambda s: "celsius", "temperature": P("in_celsius"),
                       "datetime": lambda s: s["time"][VIA]["datetime"]},
    "Metar": dict(REPORT, flight_rules=P("flight_rules"), wind_variation=D("wind_variation"), minimum_visibility=D("minimum_visibility"),
                  runway_ranges=D("runway_ranges"), temperatures=D("temperatures"), pressure=D("pressure"),
                  recent_weather=D("recent_weather"), windshears=D("windshears"), sea_state=D("sea_state"),
                  runway_state=D("runway_state"), weather_trends=D("weather_trends"), remark=P("remark")),
    "Taf": dict(REPORT, missing=D("missing"), cancelled=D("cancelled"), valid=D("valid"),
                max_temperatures=D("max_temperatures"), min_temperatures=D("min_temperatures"),
                changes_forecasted=D("changes_forecasted")),
}


def bad_constant(name):
    raise ValueError("%s is not standard JSON" % name)


def check_keys(spec, s, d, path):
    for key, want in spec.items():
        if not isinstance(d, dict) or key not in d:
            return "missing-key", "%s lacks %r" % (path, key)
        if isinstance(want, dict):
            e = check_keys(want, s, d[key], "%s[%r]" % (path, key))
            if e:
                return e
            continue
        w = want(s)
        if observe.diff(w, d[key], limit=1):
            return "dict", "%s[%r] states another value than the property: %s" % (
                path, key, observe.diff_text(w, d[key]))
    return None


def is_list(s):
    return "!iter" in s and isinstance(s.get("items"), list)


def check(s, path="report"):
    """First disagreement within the snapshot, or None."""
    if isinstance(s, list):
        for i, x in enumerate(s):
            e = check(x, "%s[%d]" % (path, i))
            if e:
                return e
        return None
    if not isinstance(s, dict):
        return None
    if "!dict" in s:
        d = s["!dict"]
        if not isinstance(d, dict) or "!exc" in d:
            return "dict", "%s.as_dict() is %r" % (path, d)
        try:
            j = json.loads(s["!json"], parse_constant=bad_constant) if isinstance(s["!json"], str) else None
            if j is None:
                return "json", "%s.to_json() gave %r" % (path, s["!json"])
        except ValueError as e:
            return "json", "%s.to_json(): %s" % (path, e)
        if observe.diff(j, d, limit=1):
            return "json", "%s.to_json() reads back differently from as_dict(): %s" % (path, observe.diff_text(j, d))
        if is_list(s):
            n = len(s["items"])
            if len(d) != n:
                return "list", "%s.as_dict() has %d of %d items" % (path, len(d), n)
            for i, x in enumerate(s["items"]):
                names = LABELS[i] if isinstance(LABELS[i], tuple) else (LABELS[i],)
                k = next((k for k in names if k in d), None)
                if k is None:
                    return "list", "%s.as_dict() has no %r" % (path, names[0])
                if observe.diff(d[k], x["!dict"], limit=1):
                    return "list", "%s.as_dict()[%r]: %s" % (path, k, observe.diff_text(x["!dict"], d[k]))
            if s["!iter"] != list(range(n)) or s["!index"] != list(range(n)) or s["!len"] != n:
                return "list", "%s: items, iteration, indexing and length disagree: %d %r %r %r" % (
                    path, n, s["!iter"], s["!index"], s["!len"])
        else:
            spec = TABLE.get(s["!class"])
            if spec:
                e = check_keys(spec, s, d, path + ".as_dict()")
                if e:
                    return e
    for k, v in s.items():
        if k[0] != "!":
            e = check(v, path + "." + k)
            if e:
                return e
    return None


def gen(seed, i, tier):
    r = world.new_rng(seed, "C17", i)
    return stream.gen(r, r.randint(1, 8), stream.DAMAGE, rate=0.7, storm=0.35, max_ops=r.choice([2, 4, 12]))



def walk(obj, path="report", depth=0):
    """First object whose JSON text does not read back as exactly its dictionary (types included)."""
    if depth > 12:
        return None
    if isinstance(obj, (list, tuple)):
        for i, x in enumerate(obj):
            e = walk(x, "%s[%d]" % (path, i), depth + 1)
            if e:
                return e
        return None
    if not observe.is_lib(obj):
        return None
    if callable(getattr(type(obj), "as_dict", None)) and callable(getattr(type(obj), "to_json", None)):
        try:
            d, j = obj.as_dict(), json.loads(obj.to_json(), parse_constant=bad_constant)
        except Exception as e:
            return "%s: %s: %s" % (path, type(e).__name__, e)
        if d != j:
            return "%s: json.loads(to_json()) is %s but as_dict() is %s" % (
                path, observe.brief(repr(j), 400), observe.brief(repr(d), 400))
    for name in observe.public_props(type(obj)):
        try:
            v = getattr(obj, name)
        except Exception:
            continue
        e = walk(v, path + "." + name, depth + 1)
        if e:
            return e
    return None


def receive(case):
    out = []
    for at, n, m in stream.arrivals(case):
        req, _, _ = stream.request(m)
        if not req["text"]:
            out.append(None)
            continue
        boot.CLOCK.set(at, case["tz_min"])
        try:
            rep = observe.decode(boot.LIB, req["kind"], req["text"], req["year"], req["month"])
        except Exception as e:
            out.append({"raised": observe.exc(e)})
            continue
        out.append({"walk": walk(rep), "report": observe.snapshot(rep)})
    return out


def judge(m, req, units, o, at, res):
    if "raised" in o:
        return "not-decoded", "decoding raised %s: %s" % (o["raised"]["!exc"], o["raised"]["msg"])
    if o["walk"]:
        return "json", o["walk"]
    return check(o["report"])


def run(case, fork):
    return stream.check_stream(case, fork, judge, receive)


shrink = stream.shrink
