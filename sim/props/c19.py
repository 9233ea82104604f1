"""C19  The readable text of a report says what the report says."""
import re

from .. import accounting, stream, world

RUNS = (5000, 80000)
LEVEL = "exploration"
STUBS = stream.STUBS
ASSUMPTIONS = [
    "the text is ASCII and not empty",
    "the text of a change of a TAF is that of its change indicator alone",
    "a second pressure group replaces the first, whose line may stay in the text",
]
RULE = ("A run is a stream of 1 to 8 reports after link faults drawn from the run's seed. The lines of each report's "
        "text must be the texts of its decoded parts in the order of the format, and every value a part reports must "
        "stand in its text, in order, with no other number there. Non-trivial: at least one fault fired; distinct by "
        "the digest of all decoded outcomes.")


def when(t):
    return t["time"]["!t"].replace("T", " ")


def num(v, unit="", before=""):
    """The value to one decimal; a value half way between two decimals may be rounded either way."""
    if v is None:
        return None
    return tuple(sorted({"%s%.1f%s" % (before, x, unit) for x in (v - 1e-9, v, v + 1e-9)} |
                        {"%s%.1f%s" % (before, v, unit)}))


def degrees(card, deg):
    return [card, num(deg, "°")]


def wind(s):
    f = ["variable"] if s["variable"] else degrees(s["cardinal_direction"], s["direction_in_degrees"])
    f.append(num(s["speed_in_knot"], " kt"))
    if s.get("gust_in_knot") is not None:
        f += ["gust", num(s["gust_in_knot"], " kt")]
    return f


def visibility(s):
    if s.get("cavok"):
        return ["Visibility OK"]
    m = s["in_meters"]
    return [None if m is None else num(m / 1000, " km")] + degrees(s["cardinal_direction"], s["direction_in_degrees"])


def runway_range(s):
    if s["low_in_meters"] is None:
        return []
    m = re.search(r"/([MP]?)(?:\d{4})(?:V([MP]?)\d{4})?", s["code"] or "")
    word = {"M": "below", "P": "above", "": None, None: None}
    f = [s["name"], word[m.group(1)] if m else None, num(s["low_in_meters"], " m")]
    if s["high_in_meters"] is not None:
        f += [word[m.group(2)] if m else None, num(s["high_in_meters"], " m")]
    return f + [s["trend"]]


def cloud(s):
    ft = s["height_in_feet"]
    return [s["cover"], None if ft is None else num(ft, " feet"), s["cloud_type"]]


def temperatures(s):
    t, d = s["temperature_in_celsius"], s["dewpoint_in_celsius"]
    if t is None and d is None:
        return []
    return ["no temperature" if t is None else num(t, "°C", "temperature: "),
            "no dewpoint" if d is None else num(d, "°C", "dewpoint: ")]


def sea_state(s):
    t, h = s["temperature_in_celsius"], s["height_in_meters"]
    if t is None and h is None and s["state"] is None:
        return []
    return ["no temperature" if t is None else num(t, "°C", "temperature "),
            "no significant wave" if h is None else num(h, " m", "wave height "),
            "no sea state" if s["state"] is None else s["state"]]


def runway_state(s):
    if s["snoclo"]:
        return ["closed", "snow"]
    if s["clrd"]:
        return [s["clrd"]]
    return [s["name"], s["deposits_depth"], s["deposits"], s["contamination"], s["surface_friction"]]


def trend_indicator(s):
    f = [s["translation"]]
    if s["period_at"]:
        return f + ["at", when(s["period_at"])]
    if s["translation"]:
        f += ["from", when(s["period_from"]), "until", when(s["period_until"])]
    return f


def valid(s):
    return ["from", when(s["period_from"]), "until", when(s["period_until"])]


def change_indicator(s):
    if not s["translation"]:
        return []
    code, own = s["code"], s["valid"]["code"]
    if code is None or code.startswith("FM"):
        return [s["valid"]["!str"]]
    word = code.split(own)[0] if own and own in code else code
    return [MEANS[w] for w in word.split()] + ([s["valid"]["!str"]] if word != code else [])


MEANS = {"BECMG": "becoming", "TEMPO": "temporary", "PROB30": "30", "PROB40": "40"}


def windshear(s):
    return ["all"] if s["all_"] and not s["name"] else [s["name"]]


def temperature_at(s):
    return [] if s["in_celsius"] is None else [num(s["in_celsius"], "°C"), when(s["time"])]


FACTS = {
    "ReportType": lambda s: [s["type_"], s["code"]],
    "Station": lambda s: [str(s[k]) for k in ("name", "latitude", "longitude", "elevation", "country")],
    "Time": lambda s: [s["time"]["!t"].replace("T", " ")],
    "Modifier": lambda s: [s["description"] and s["description"].lower()],
    "Missing": lambda s: [s["description"] and s["description"].lower()],
    "Cancelled": lambda s: ["cancelled"] if s["is_cancelled"] else [],
    "MetarWind": wind,
    "MetarWindVariation": lambda s: [] if s["from_in_degrees"] is None else degrees(
        s["from_cardinal_direction"], s["from_in_degrees"]) + degrees(s["to_cardinal_direction"], s["to_in_degrees"]),
    "MetarPrevailingVisibility": visibility,
    "MetarMinimumVisibility": visibility,
    "MetarRunwayRange": runway_range,
    "MetarWeather": lambda s: [s[k] for k in ("intensity", "description", "precipitation", "obscuration", "other")],
    "MetarRecentWeather": lambda s: [s[k] for k in ("description", "precipitation", "obscuration", "other")],
    "Cloud": cloud,
    "MetarTemperatures": temperatures,
    "MetarPressure": lambda s: [num(s["in_hPa"], " hPa")],
    "MetarWindshearRunway": windshear,
    "MetarSeaState": sea_state,
    "MetarRunwayState": runway_state,
    "MetarTrendIndicator": trend_indicator,
    "Valid": valid,
    "TafChangeIndicator": change_indicator,
    "ChangeForecasted": lambda s: [s["change_indicator"]["!str"]],
    "TafTemperature": temperature_at,
}
# Words that would claim a value the part does not report.
CLAIMS = {
    "MetarWind": lambda s: ["gust"] if s["gust_in_knot"] is None else [],
    "MetarRunwayRange": lambda s: [w for w, n in (("below", "M"), ("above", "P"))
                                   if "/" + n not in (s["code"] or "") and "V" + n not in (s["code"] or "")],
    "Cloud": lambda s: [] if s["height_in_feet"] is None else ["undefined height"],
}


def group(s, path):
    """Does the text of one part state its values?"""
    facts = FACTS.get(s["!class"])
    if facts is None:
        return None
    text, at, rest = s["!str"], 0, ""
    if not isinstance(text, str):
        return "str(%s) gave %r" % (path, text)
    for f in facts(s):
        if not f:
            continue
        # a number must not be the tail of a longer one or miss its sign
        hits = [m for x in (f if isinstance(f, tuple) else (f,))
                for m in re.finditer((r"(?<![\d.-])" if x[0].isdigit() else "") + re.escape(x), text) if m.start() >= at]
        if not hits:
            return "str(%s) is %r, which does not state %r in its place" % (path, text, f)
        m = min(hits, key=lambda m: m.start())
        rest += text[at:m.start()] + " "
        at = m.end()
    rest += text[at:]
    if re.search(r"\d", rest):
        return "str(%s) is %r, which states a number that is none of its values" % (path, text)
    for w in CLAIMS.get(s["!class"], lambda s: [])(s):
        if w in text:
            return "str(%s) is %r, but it reports no %s" % (path, text, w)
    return None


def groups(s, path="report"):
    """First part, at any depth, whose text does not state its values."""
    if isinstance(s, list):
        for i, x in enumerate(s):
            e = groups(x, "%s[%d]" % (path, i))
            if e:
                return e
    elif isinstance(s, dict):
        if "!class" in s:
            e = group(s, path)
            if e:
                return e
        for k, v in s.items():
            if k[0] != "!" and k != "items":
                e = groups(v, path + "." + k)
                if e:
                    return e
        if "items" in s:
            return groups(s["items"], path) or listed(s, path)
    return None


def listed(s, path):
    if s["!class"] == "MetarWindshearList" and s["all_runways"]:
        return None if "all" in s["!str"] else "str(%s) is %r for windshear on all runways" % (path, s["!str"])
    at = 0
    for x in s["items"]:
        i = s["!str"].find(x["!str"], at)
        if i < 0:
            return "str(%s) is %r and lacks %r" % (path, s["!str"], x["!str"])
        at = i + len(x["!str"])
    return None


def lines(text):
    return [x.strip() for x in text.split("\n") if x.strip()]


def one(s, name):
    g = s.get(name)
    return lines(g["!str"]) if g and g.get("code") is not None else []


def many(s, name):
    return [y for x in s[name]["items"] for y in lines(x["!str"])]


FORECAST = [("one", "wind"), ("one", "prevailing_visibility"), ("many", "weathers"), ("many", "clouds")]
ORDER = {
    "Metar": [("type", None), ("one", "station"), ("one", "time"), ("one", "modifier"), ("one", "wind"),
              ("one", "wind_variation"), ("one", "prevailing_visibility"), ("one", "minimum_visibility"),
              ("many", "runway_ranges"), ("many", "weathers"), ("many", "clouds"), ("one", "temperatures"),
              ("pressure", None), ("one", "recent_weather"), ("many", "windshears"), ("one", "sea_state"),
              ("one", "runway_state"), ("many", "weather_trends")],
    "Taf": [("type", None), ("one", "modifier"), ("one", "station"), ("one", "time"), ("one", "missing"),
            ("one", "valid"), ("one", "cancelled"), ("one", "wind"), ("one", "prevailing_visibility"),
            ("many", "weathers"), ("many", "clouds"), ("temps", None), ("many", "changes_forecasted")],
    "ChangePeriod": [("one", "trend_indicator")] + FORECAST,
}
PRESSURE = re.compile(r"\d+\.\d hPa")


def layout(s, received, path="report"):
    """Do the lines of the text come from the decoded parts, in order?"""
    got, k = lines(s["!str"]), 0

    def bad(want):
        return "str(%s) has %r as line %d instead of %s" % (
            path, got[k] if k < len(got) else "nothing", k + 1, want)

    for how, name in ORDER[s["!class"]]:
        if how == "type":
            want = lines(s["type_"]["!str"])
            if got[k:k + 1] == want:
                k += 1
            elif received[:1] == [s["type_"]["code"]]:
                return bad("the type %r" % want)
            continue
        if how == "temps":
            a, b = many(s, "max_temperatures"), many(s, "min_temperatures")
            while a or b:
                x = got[k] if k < len(got) else None
                if a and x == a[0]:
                    del a[0]
                elif b and x == b[0]:
                    del b[0]
                else:
                    return bad("a temperature")
                k += 1
            continue
        if how == "pressure":
            want = one(s, "pressure")
            if got[k:k + 1] != want and s["pressure"].get("code") is not None and k < len(got) and \
                    PRESSURE.fullmatch(got[k]):
                k += 1  # the line of the superseded pressure
            elif got[k:k + 1] == want and got[k + 1:k + 2] == want and want and \
                    sum(1 for w in received if accounting.PRESS.fullmatch(w)) > 1:
                k += 1  # two equal pressures
        if how != "pressure":
            want = {"one": one, "many": many}[how](s, name)
            if name == "trend_indicator" and s[name]["translation"] is None and got[k:k + 1] != want:
                continue  # the times of a change whose indicator was lost
        for w in want:
            if k >= len(got) or got[k] != w:
                return bad("%r of %s" % (w, name or how))
            k += 1
    if k < len(got):
        return "str(%s) has the line %r, which belongs to none of its parts" % (path, got[k])
    return None


def gen(seed, i, tier):
    r = world.new_rng(seed, "C19", i)
    return stream.gen(r, r.randint(1, 8), stream.DAMAGE, rate=0.7, storm=0.35, max_ops=r.choice([2, 4, 12]))


def judge(m, req, units, o, at, res):
    if "raised" in o:
        return "not-decoded", "decoding raised %s: %s" % (o["raised"]["!exc"], o["raised"]["msg"])
    s = o["report"]
    e = groups(s)
    if e:
        return "part", e
    e = layout(s, req["text"].replace("=", "").split())
    for i, x in enumerate(s["weather_trends"]["items"] if "weather_trends" in s else []):
        e = e or layout(x, [], "report.weather_trends[%d]" % i)
    return ("lines", e) if e else None


def run(case, fork):
    return stream.check_stream(case, fork, judge)


shrink = stream.shrink
