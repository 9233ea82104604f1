"""The forms a group may have, by the place it is decoded at: written by hand, independently of the library."""
import re

DAY, HOUR, HOUR24, MIN = r"(0[1-9]|[12]\d|3[01])", r"([01]\d|2[0-3])", r"([01]\d|2[0-4])", r"[0-5]\d"
DIR = r"([0-2]\d0|3[0-6]0)"
FULL = r"((0[1-9]|[12]\d|3[0-6])0)"
TO = r"(N[EW]?|S[EW]?|E|W)"
MILES = r"[MP]?\d{0,2} ?(\d/[1-9])?(SM|KM|M|U)"
SIDE = r"[LRC]"
HOW = r"(MI|PR|BC|DR|BL|SH|TS|FZ)"
FALLS = r"(DZ|RA|SN|SG|IC|PL|GR|GS|UP)"
VALID = DAY + HOUR + "/" + DAY + HOUR24

BOTH = {
    "station": r"[A-Z][A-Z0-9]{3}",
    "time": DAY + HOUR + MIN + "Z",
    "prevailing_visibility": r"(\d{4}|////)%s?|%s|CAVOK" % (TO, MILES),
    "weathers": r"([-+]?VC|[-+])?%s?(%s|BR|FG|FU|VA|DU|SA|HZ|PY|PO|SQ|FC|SS|DS|NSW|/)?" % (HOW, FALLS),
    "clouds": r"(VV|CLR|SKC|NSC|NCD|BKN|SCT|FEW|[O0]VC|///)(\d{3}|///)?(TCU|CB|///)?",
    "type_": "METAR|SPECI|TAF",
    "wind": r"(%s|///|VRB)P?(\d{2,3}|//|///)(GP?\d{2,3})?(KT|MPS)" % DIR,
}
METAR = dict(BOTH, **{
    "modifier": "CORR?|AMD|NIL|TEST|FINO|AUTO",
    "wind_variation": FULL + "V" + FULL,
    "minimum_visibility": r"(\d{4}|////)%s?" % TO,
    "runway_ranges": r"R\d\d%s?/[MP]?\d{2,4}(V[MP]?\d{2,4})?(FT)?[NDU]?" % SIDE,
    "temperatures": r"[M-]?(\d\d|//|XX|MM)/[M-]?(\d\d|//|XX|MM)",
    "pressure": r"(A|Q|QNH)?(\d{4}|////)(INS)?",
    "recent_weather": r"RE%s?%s?(BR|FG|VA|DU|SA|HZ|PY)?(PO|SQ|FC|SS|DS)?" % (HOW, FALLS),
    "windshears": r"WS( ALL)? (RWY|R\d\d%s?)" % SIDE,
    "sea_state": r"WM?\d\d/(S\d|H\d{3})",
    "runway_state": r"R(\d\d%s?)?/(SNOCLO|CLRD//|[\d/][\d/](\d\d|//)(\d\d|//))" % SIDE,
    # a section whose keyword is damaged at its end has times only
    "trend_indicator": r"(NOSIG|TEMPO|BECMG)?( ?(FM|TL|AT)%s%s)*" % (HOUR24, MIN),
    "period_from": "FM" + HOUR24 + MIN,
    "period_until": "TL" + HOUR24 + MIN,
    "period_at": "AT" + HOUR24 + MIN,
})
TAF = dict(BOTH, **{
    "modifier": "COR|AMD",
    "missing": "NIL",
    "cancelled": "CNL",
    "valid": VALID,
    "max_temperatures": r"TXM?\d\d/" + DAY + HOUR + "Z",
    "min_temperatures": r"TNM?\d\d/" + DAY + HOUR + "Z",
    "change_indicator": r"FM%s%s%s|(TEMPO|BECMG|PROB[34]0( TEMPO)?)( %s)?" % (DAY, HOUR, MIN, VALID),
})
RE = {k: {p: re.compile(f) for p, f in t.items()} for k, t in (("Metar", METAR), ("Taf", TAF))}


def check(snap, kind, path="report"):
    """Complaints about codes that are no form of the group they were decoded as, and the number looked at."""
    bad, n = [], 0

    def one(p, g, where):
        nonlocal n
        if isinstance(g, dict) and isinstance(g.get("code"), str):
            n += 1
            if not RE[kind][p].fullmatch(g["code"]):
                bad.append("%s was decoded from %r" % (where, g["code"]))

    for p in RE[kind]:
        g = snap.get(p)
        where = path + "." + p
        if isinstance(g, dict) and isinstance(g.get("items"), list):
            for j, x in enumerate(g["items"]):
                one(p, x, "%s[%d]" % (where, j))
        else:
            one(p, g, where)
    ti = snap.get("trend_indicator")
    if isinstance(ti, dict):
        for p in ("period_from", "period_until", "period_at"):
            one(p, ti.get(p), path + ".trend_indicator." + p) if p in RE[kind] else None
    ci = snap.get("change_indicator")
    if isinstance(ci, dict):
        one("valid", ci.get("valid"), path + ".change_indicator.valid")
    for p in ("weather_trends", "changes_forecasted"):
        for j, x in enumerate((snap.get(p) or {}).get("items", ())):
            b, k = check(x, kind, "%s.%s[%d]" % (path, p, j))
            bad += b
            n += k
    return bad, n
