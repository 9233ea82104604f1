"""Where the received groups of a report turn up in the decoded report (used by C11)."""
import re
from collections import Counter

SINGLE = ("station", "time", "modifier", "missing", "cancelled", "wind", "wind_variation", "prevailing_visibility",
          "minimum_visibility", "temperatures", "pressure", "recent_weather", "sea_state", "runway_state",
          "trend_indicator", "change_indicator")
LISTS = ("runway_ranges", "weathers", "clouds", "windshears", "max_temperatures", "min_temperatures")
SECTIONS = ("weather_trends", "changes_forecasted")
PRESS = re.compile(r"(A|Q|QNH)?(\d{4}|////)(INS)?")


def norm(s):
    """Words of a code or text.  The library joins the words of one group with '_' and writes RWY07 as R07."""
    return re.sub(r"RWY(?=\d\d)", "R", s.replace("_", " ")).split()


def words(text):
    return norm(text.replace("=", ""))


def found(snap, out, optional, top=True):
    """Words of the codes of all decoded groups into the counters `out` and `optional`."""
    def put(code, where):
        if isinstance(code, str):
            for w in norm(code):
                where[w] += 1

    for p in SINGLE:
        g = snap.get(p)
        if isinstance(g, dict):
            put(g.get("code"), out)
    for p in LISTS:
        g = snap.get(p)
        if isinstance(g, dict):
            for x in g.get("items", []):
                put(x.get("code"), out)
    if top:
        put(snap["type_"].get("code"), out)
        if isinstance(snap.get("valid"), dict):
            put(snap["valid"].get("code"), out)
        for u in snap["unparsed_groups"]:
            put(u, out)
    ci = snap.get("change_indicator")
    if isinstance(ci, dict):
        v = (ci.get("valid") or {}).get("code")
        c = ci.get("code")
        if isinstance(v, str):
            if c is None:
                # either this change's own period after an unreadable indicator or the TAF's period
                put(v, optional)
            elif c.startswith("FM"):
                put(v, out)
    for p in SECTIONS:
        g = snap.get(p)
        if isinstance(g, dict):
            for x in g.get("items", []):
                found(x, out, optional, False)


def account(kind, text, snap):
    """First complaint, or None."""
    received = words(text)
    cut = next((i for i, w in enumerate(received) if w.startswith("RMK")), len(received)) \
        if kind == "Metar" else len(received)
    ahead, everything = Counter(received[:cut]), Counter(received)
    got, optional = Counter(), Counter()
    found(snap, got, optional)
    tcode = snap["type_"].get("code")
    spare_type = 1  # the type shown when none was received
    superseded = 1
    for w, n in ahead.items():
        have = got[w] + optional[w]
        if have < n:
            if superseded and n - have == 1 and kind == "Metar" and PRESS.fullmatch(w) and \
                    isinstance(snap["pressure"].get("code"), str):
                superseded = 0
                continue
            return "group %r was received %d times but found %d times" % (w, n, have)
    for w, n in got.items():
        have = everything[w]
        if n > have:
            if spare_type and n - have == 1 and w == tcode:
                spare_type = 0
                continue
            return "group %r was found %d times but received %d times" % (w, n, have)
    for u in snap["unparsed_groups"]:
        if not isinstance(u, str) or not u or u != u.strip():
            return "%r among the unparsed groups" % (u,)
    top = Counter(snap["unparsed_groups"])
    for p in SECTIONS:
        for x in (snap.get(p) or {}).get("items", []):
            sub = Counter(x["unparsed_groups"])
            if sub - top:
                return "%r unparsed in a part but not in the report" % (sorted((sub - top).elements()),)
            top = top - sub
    raw = words(snap["raw_code"])
    if raw != received:
        return "raw text %r has not the received groups" % snap["raw_code"]
    secs = Counter(w for s in snap["sections"] for w in norm(s))
    if secs != everything:
        lost, extra = everything - secs, secs - everything
        return "the sections lack %r and add %r" % (sorted(lost.elements()), sorted(extra.elements()))
    for p in ("body", "trend", "remark", "weather_changes"):
        if p in snap and snap[p] not in snap["sections"]:
            return "%s is %r, not one of the sections" % (p, snap[p])
    return None
