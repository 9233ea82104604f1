"""What a group's own code means, read by hand, independently of the library.

Each reader takes the code of a decoded group and returns {property: expected} for what it can tell from
the code alone (None: the reader doesn't know this form and nothing is checked).  Numbers are compared with
a relative tolerance that covers the precision of published conversion factors."""
import re

KT_MPS = 1852.0 / 3600
INHG = 33.8639
FT = 0.3048
NM = 1852.0  # the library reads SM as sea miles, as its documentation says
REL = 4e-4

WINDS16 = ["N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW"]
DIR8 = {"N": 360, "NE": 45, "E": 90, "SE": 135, "S": 180, "SW": 225, "W": 270, "NW": 315}

INT = {"": None, "-": "light", "+": "heavy", "-VC": "nearby light", "+VC": "nearby heavy", "VC": "nearby"}
DESC = {"MI": "shallow", "PR": "partial", "BC": "patches of", "DR": "low drifting", "BL": "blowing",
        "SH": "showers", "TS": "thunderstorm", "FZ": "freezing"}
PREC = {"DZ": "drizzle", "RA": "rain", "SN": "snow", "SG": "snow grains", "IC": "ice crystals",
        "PL": "ice pellets", "GR": "hail", "GS": "snow pellets", "UP": "unknown precipitation"}
OBSC = {"BR": "mist", "FG": "fog", "FU": "smoke", "VA": "volcanic ash", "DU": "dust", "SA": "sand",
        "HZ": "haze", "PY": "spray"}
OTHER = {"PO": "sand whirls", "SQ": "squalls", "FC": "funnel cloud", "SS": "sandstorm", "DS": "dust storm",
         "NSW": "nil significant weather"}
COVER = {"SKC": "clear", "CLR": "clear", "NSC": "clear", "NCD": "clear", "FEW": "a few", "SCT": "scattered",
         "BKN": "broken", "OVC": "overcast", "///": "undefined", "VV": "indefinite ceiling"}
OKTAS = {"FEW": "1-2", "SCT": "3-4", "BKN": "5-7", "OVC": "8", "NSC": "not specified", "NCD": "not specified"}
CTYPE = {"CB": "cumulonimbus", "TCU": "towering cumulus"}
SIDE = {"L": "left", "R": "right", "C": "center"}
SEA = ["calm (glassy)", "calm (rippled)", "smooth (wavelets)", "slight", "moderate", "rough", "very rough", "high",
       "very high", "phenomenal"]
DEPOSIT = {"0": "clear and dry", "1": "damp", "2": "wet and water patches",
           "3": "rime and frost covered (depth normally less than 1 mm)", "4": "dry snow", "5": "wet snow",
           "6": "slush", "7": "ice", "8": "compacted or rolled snow", "9": "frozen ruts or ridges",
           "/": "type of deposit not reported (e.g. due to runway clearance in progress)"}
CONTAM = {"1": "less than 10% of runway", "2": "11%-25% of runway", "5": "26%-50% of runway",
          "9": "51%-100% of runway", "/": "not reported"}
DEPTH = {"00": "less than 1 mm", "92": "10 cm", "93": "15 cm", "94": "20 cm", "95": "25 cm", "96": "30 cm",
         "97": "35 cm", "98": "40 cm or more"}
BRAKE = {"91": "breaking action poor", "92": "breaking action medium/poor", "93": "breaking action medium",
         "94": "breaking action medium/good", "95": "breaking action good", "99": "breaking action unreliable",
         "//": "breaking conditions not reported and/or runway not operational"}
TYPES = {"METAR": "Meteorological Aerodrome Report", "SPECI": "Special Aerodrome Report",
         "TAF": "Terminal Aerodrome Forecast"}
MODS = {"COR": "Correction", "CORR": "Correction", "AMD": "Amendment", "NIL": "Missing report",
        "AUTO": "Automatic report", "TEST": "Testing report", "FINO": "Missing report"}


def cardinal(deg):
    return None if deg is None else WINDS16[int(((deg % 360) + 11.25) // 22.5) % 16]


def wind(c, s=None):
    m = re.fullmatch(r"(\d\d0|VRB|///)P?(\d{2,3}|//|///)(?:GP?(\d{2,3}))?(KT|MPS)", c)
    if not m:
        return None
    f = 1.0 if m[4] == "KT" else 1 / KT_MPS
    d = float(m[1]) if m[1].isdigit() else None
    v = float(m[2]) * f if m[2].isdigit() else None
    g = float(m[3]) * f if m[3] else None
    return {"direction_in_degrees": d, "variable": m[1] == "VRB", "speed_in_knot": v, "gust_in_knot": g,
            "cardinal_direction": cardinal(d), "speed_in_mps": None if v is None else v * KT_MPS,
            "gust_in_mps": None if g is None else g * KT_MPS}


def windvar(c, s=None):
    m = re.fullmatch(r"(\d{3})V(\d{3})", c)
    if not m:
        return None
    a, b = float(m[1]), float(m[2])
    return {"from_in_degrees": a, "to_in_degrees": b, "from_cardinal_direction": cardinal(a),
            "to_cardinal_direction": cardinal(b)}


def _dist(m):
    return {"in_meters": m, "in_kilometers": None if m is None else m / 1000,
            "in_feet": None if m is None else m / FT, "in_sea_miles": None if m is None else m / NM}


def vis(c, s=None):
    if c == "CAVOK":
        return dict(_dist(10000.0), cavok=True, direction_in_degrees=None, cardinal_direction=None)
    m = re.fullmatch(r"(\d{4}|////)([NS][EW]|[NSEW])?", c)
    if m:
        if m[1] == "////":
            v = None
        else:
            v = 10000.0 if m[1] == "9999" else float(m[1])
        d = DIR8[m[2]] if m[2] else None
        return dict(_dist(v), cavok=False, direction_in_degrees=d, cardinal_direction=m[2])
    m = re.fullmatch(r"[MP]?(\d{1,2})?[ _]?(?:(\d)/([1-9]))?(SM|KM)", c)
    if m and (m[1] or m[2]) and not (m[1] and m[2] and not re.search(r"[ _]", c)):
        v = float(m[1] or 0) + (float(m[2]) / float(m[3]) if m[2] else 0.0)
        v *= NM if m[4] == "SM" else 1000.0
        return dict(_dist(v), cavok=False, direction_in_degrees=None)
    return None


def minvis(c, s=None):
    m = re.fullmatch(r"(\d{4}|////)([NS][EW]|[NSEW])?", c)
    if not m:
        return None
    v = None if m[1] == "////" else 10000.0 if m[1] == "9999" else float(m[1])
    return dict(_dist(v), direction_in_degrees=DIR8[m[2]] if m[2] else None, cardinal_direction=m[2])


def runway(n):
    if n is None:
        return None
    if len(n) == 3:
        return "%s %s" % (n[:2], SIDE[n[2]])
    return {"88": "all runways", "99": "repeated"}.get(n, n)


def rvr(c, s=None):
    m = re.fullmatch(r"R(\d\d[LRC]?)/([MP])?(\d{2,4})(?:V([MP])?(\d{2,4}))?(FT)?([NDU])?", c)
    if not m or "9999" in (m[3], m[5]):
        return None
    f = FT if m[6] else 1.0
    low = float(m[3]) * f
    high = float(m[5]) * f if m[5] else None
    out = {"name": runway(m[1]), "low_in_meters": low, "high_in_meters": high,
           "low_in_feet": low / FT, "high_in_feet": None if high is None else high / FT,
           "trend": {"N": "no change", "U": "increasing", "D": "decreasing", None: None}[m[7]]}
    if s is not None:
        word = {"M": "below of", "P": "above of"}
        for side, q, v in (("low_range", m[2], low), ("high_range", m[4], high)):
            if v is None:
                out[side] = ""
            else:
                out[side] = ("%s " % word[q] if q else "") + "%.1f m" % v
    return out


def wx(c, s=None):
    m = re.fullmatch(r"([-+]?VC|[-+])?(MI|PR|BC|DR|BL|SH|TS|FZ)?(%s)?" % "|".join(
        list(PREC) + list(OBSC) + list(OTHER)), c)
    if not m or not c:
        return None
    t = m[3]
    return {"intensity": INT[m[1] or ""], "description": DESC.get(m[2]), "precipitation": PREC.get(t),
            "obscuration": OBSC.get(t), "other": OTHER.get(t)}


def cloud(c, s=None):
    m = re.fullmatch(r"(VV|CLR|SKC|NSC|NCD|BKN|SCT|FEW|OVC|///)(\d{3}|///)?(TCU|CB|///)?", c)
    if not m:
        return None
    h = float(m[2]) * 100 * FT if m[2] and m[2] != "///" else None
    return {"cover": COVER[m[1]], "oktas": OKTAS.get(m[1], "undefined"), "cloud_type": CTYPE.get(m[3]),
            "height_in_meters": h, "height_in_feet": None if h is None else h / FT}


def _deg(sign, t):
    return None if not t.isdigit() else -float(t) if sign in ("M", "-") else float(t)


def temps(c, s=None):
    m = re.fullmatch(r"([M-])?(\d\d|//|XX|MM)/([M-])?(\d\d|//|XX|MM)", c)
    if not m:
        return None
    a, b = _deg(m[1], m[2]), _deg(m[3], m[4])
    f = lambda x: None if x is None else x * 1.8 + 32
    k = lambda x: None if x is None else x + 273.15
    return {"temperature_in_celsius": a, "dewpoint_in_celsius": b, "temperature_in_fahrenheit": f(a),
            "dewpoint_in_fahrenheit": f(b), "temperature_in_kelvin": k(a), "dewpoint_in_kelvin": k(b)}


def press(c, s=None):
    m = re.fullmatch(r"(A|Q|QNH)?(\d{4}|////)(INS)?", c)
    if not m:
        return None
    if m[2] == "////":
        v = None
    elif m[1] == "A" or m[3]:
        v = float(m[2]) / 100 * INHG
    elif m[1]:
        v = float(m[2])
    elif float(m[2]) > 2500:
        v = float(m[2]) / 100 * INHG
    else:
        v = float(m[2])
    return {"in_hPa": v, "in_mbar": v, "in_inHg": None if v is None else v / INHG,
            "in_bar": None if v is None else v / 1000, "in_atm": None if v is None else v / 1013.25}


def recent(c, s=None):
    m = re.fullmatch(r"RE(MI|PR|BC|DR|BL|SH|TS|FZ)?(%s)?(BR|FG|VA|DU|SA|HZ|PY)?(PO|SQ|FC|SS|DS)?" % "|".join(PREC), c)
    if not m or len(c) == 2:
        return None
    return {"description": DESC.get(m[1]), "precipitation": PREC.get(m[2]), "obscuration": OBSC.get(m[3]),
            "other": OTHER.get(m[4])}


def ws(c, s=None):
    if c == "WS ALL RWY":
        return {"all_": True, "name": None}
    m = re.fullmatch(r"WS R(\d\d)([LRC])?", c)
    if not m:
        return None
    return {"all_": False, "name": m[1] + (" " + SIDE[m[2]] if m[2] else "")}


def sea(c, s=None):
    m = re.fullmatch(r"W(M)?(\d\d)/(?:S(\d)|H(\d{3}))", c)
    if not m:
        return None
    t = -float(m[2]) if m[1] else float(m[2])
    h = int(m[4]) / 10 if m[4] else None
    return {"temperature_in_celsius": t, "temperature_in_kelvin": t + 273.15,
            "state": SEA[int(m[3])] if m[3] else None, "height_in_meters": h,
            "height_in_centimeters": None if h is None else h * 100}


def rwy(c, s=None):
    m = re.fullmatch(r"R(\d\d[LRC]?)?/(?:(SNOCLO)|(CLRD//)|([\d/])([\d/])(\d\d|//)(\d\d|//))", c)
    if not m:
        return None
    out = {"name": runway(m[1]), "snoclo": bool(m[2])}
    if m[2] or m[3]:
        out.update(deposits=None, contamination=None, deposits_depth=None, surface_friction=None)
    if not m[3]:
        out["clrd"] = None
    elif m[1]:
        n = runway(m[1])
        out["clrd"] = "contaminations have ceased to exists on " + (
            "previous runway" if n == "repeated" else n if n == "all runways" else "runway " + n)
    if m[4]:
        out["deposits"] = DEPOSIT[m[4]]
        if m[5] in CONTAM:
            out["contamination"] = CONTAM[m[5]]
        if m[6] in DEPTH:
            out["deposits_depth"] = DEPTH[m[6]]
        elif m[6].isdigit() and 1 <= int(m[6]) <= 90:
            out["deposits_depth"] = "%d mm" % int(m[6])
        if m[7] in BRAKE:
            out["surface_friction"] = BRAKE[m[7]]
        elif m[7].isdigit() and int(m[7]) <= 90:
            out["surface_friction"] = "0.%02d" % int(m[7])
    return out


def txtn(c, s=None):
    m = re.fullmatch(r"T([XN])(M)?(\d\d)/(\d\d)(\d\d)Z", c)
    if not m:
        return None
    t = -float(m[3]) if m[2] else float(m[3])
    return {"in_celsius": t, "in_kelvin": t + 273.15, "in_fahrenheit": t * 1.8 + 32, "value": t}


def type_(c, s=None):
    return {"type_": TYPES[c]} if c in TYPES else None


def modifier(c, s=None):
    return {"description": MODS[c]} if c in MODS else None


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    return abs(a - b) <= REL * max(abs(a), abs(b)) + 1e-6


def mismatch(reader, snap):
    """First property of a decoded group that doesn't mean what its code says."""
    code = snap.get("code")
    if not isinstance(code, str):
        return None
    want = reader(code, snap)
    if want is None:
        return None
    for k, v in want.items():
        if k in snap and not close(snap[k], v):
            return "%s of %r is %r, its code says %r" % (k, code, snap[k], v)
    return None


SINGLE = {"type_": type_, "modifier": modifier, "wind": wind, "wind_variation": windvar,
          "prevailing_visibility": vis, "minimum_visibility": minvis, "temperatures": temps, "pressure": press,
          "recent_weather": recent, "sea_state": sea, "runway_state": rwy}
LISTS = {"runway_ranges": rvr, "weathers": wx, "clouds": cloud, "windshears": ws, "max_temperatures": txtn,
         "min_temperatures": txtn}
STATIONS = {
    'PADK': ('AK ADAK NAS', 'ADK', '70454', '51.53N', '176.39W', '4'),
    'PAKH': ('AK AKHIOK', 'AKK', 'None', '56.56N', '154.11W', '14'),
    'PANC': ('AK ANCHORAGE INTL', 'ANC', '70273', '61.10N', '150.01W', '38'),
    'PZAN': ('AK ANCHORAGE/ARTCC', 'ZAN', 'None', '61.10N', '149.59W', '22'),
    'PABA': ('AK BARTER ISLAND', 'BTI', '70086', '70.08N', '143.35W', '2'),
    'PACD': ('AK COLD BAY', 'CDB', '70316', '55.12N', '162.43W', '30'),
    'PAHL': ('AK HUSLIA', 'None', 'None', '65.42N', '156.21W', '65'),
    'PAQH': ('AK QUINHAGAK', 'None', 'None', '59.45N', '161.51W', '13'),
    'KLAX': ('CA LOS ANGELES', 'LAX', '72295', '33.56N', '118.23W', '46'),
    'KJFK': ('NY NYC/JFK ARPT', 'JFK', '74486', '40.38N', '073.46W', '9'),
    'CYYZ': ('ON TORONTO/PEARSON', 'YYZ', '71624', '43.40N', '079.37W', '173'),
    'MRLB': ('LIBERIA/DANIEL ODUBER', 'LIR', '78774', '10.36N', '085.33W', '82'),
    'MROC': ('JUAN SANTAMARIA', 'SJO', '78762', '10.00N', '084.13W', '920'),
    'SBGR': ('GUARULHOS (CIV/M', 'None', 'None', '23.25S', '046.28W', '750'),
    'BIKF': ('KEFLAVIK (CIV/MI', 'None', '04018', '63.59N', '022.36W', '54'),
    'EDDF': ('FRANKFURT MAIN A', 'None', '10637', '50.03N', '008.36E', '113'),
    'EGLL': ('LONDON/HEATHROW', 'None', '03772', '51.29N', '000.27W', '24'),
    'LEMD': ('MADRID/BARAJAS', 'None', '08221', '40.29N', '003.34W', '582'),
    'LFPG': ('CHARLES DE GAULL', 'None', '07157', '49.01N', '002.31E', '109'),
    'FACT': ('CAPETOWN/DF MALA', 'None', '68816', '33.58S', '018.36E', '42'),
    'FMMI': ('ANTANANARIVO/IVA', 'None', '67083', '18.48S', '047.28E', '1276'),
    'FMEE': ('ST. DENIS/GILLOT', 'None', '61980', '20.52S', '055.31E', '25'),
    'OMDB': ('DUBAI INTL AIRPO', 'None', '41194', '25.15N', '055.22E', '5'),
    'UUEE': ("MOSCOW/SHEREMET'", 'None', 'None', '55.58N', '037.25E', '190'),
    'RJTT': ('TOKYO INTL AIRPO', 'None', '47671', '35.32N', '139.46E', '8'),
    'YSSY': ('SYDNEY INTL AIRP', 'SYD', '94767', '33.57S', '151.10E', '3'),
    'NSFA': ('FALEOLO INT/APIA', 'None', '91759', '13.50S', '172.00W', '5'),
    'NTAA': ('TAHITI-FAAA POLY', 'None', '91938', '17.33S', '149.37W', '2'),
}


def _hm(t):
    """(day, hour, minute) of a time object's snapshot."""
    return (t["day"], t["hour"], t["minute"])


def times(snap, path):
    """Day, hour and minute of times that carry their own code."""
    bad, n = [], 0

    def expect(what, got, want):
        if got != want:
            bad.append("%s: %r, its code says %r" % (what, got, want))

    t = snap.get("time")
    if isinstance(t, dict) and isinstance(t.get("code"), str):
        m = re.fullmatch(r"(\d\d)(\d\d)(\d\d)Z", t["code"])
        if m:
            n += 1
            expect(path + ".time", _hm(t), tuple(int(x) for x in m.groups()))
    for side in ("max_temperatures", "min_temperatures"):
        for j, x in enumerate(snap.get(side, {}).get("items", [])):
            m = re.fullmatch(r"T([XN])M?\d\d/(\d\d)(\d\d)Z", x.get("code") or "")
            if m and isinstance(x.get("time"), dict):
                n += 1
                expect("%s.%s[%d].time" % (path, side, j), _hm(x["time"])[:2], (int(m[2]), int(m[3])))
                expect("%s.%s[%d] kind" % (path, side, j), side[:3], {"X": "max", "N": "min"}[m[1]])

    def valid(v, what, both):
        m = re.fullmatch(r"(\d\d)(\d\d)/(\d\d)(\d\d)", v.get("code") or "")
        if not m:
            return 0
        d1, h1, d2, h2 = (int(x) for x in m.groups())
        expect(what + ".period_from", _hm(v["period_from"])[:2], (d1, h1))
        if both:
            u = v["period_until"]
            if h2 == 24:
                expect(what + ".period_until hour", u["hour"], 0)
            else:
                expect(what + ".period_until", _hm(u)[:2], (d2, h2))
        return 1

    if isinstance(snap.get("valid"), dict):
        n += valid(snap["valid"], path + ".valid", True)
    ci = snap.get("change_indicator")
    if isinstance(ci, dict):
        fm = re.fullmatch(r"FM(\d\d)(\d\d)(\d\d)", ci.get("code") or "")
        if fm and not (ci["valid"].get("code") or ""):
            n += 1
            expect(path + " FROM", _hm(ci["valid"]["period_from"]), tuple(int(x) for x in fm.groups()))
        else:
            n += valid(ci["valid"], path + ".valid", not fm)
    for which in ("trend_indicator", "change_indicator"):
        g = snap.get(which)
        if isinstance(g, dict) and isinstance(g.get("code"), str):
            w = g["code"].split()
            names = {"NOSIG": "no significant changes", "BECMG": "becoming", "TEMPO": "temporary",
                     "PROB30": "probability 30%", "PROB40": "probability 40%"}
            if w and w[0] in names:
                want = names[w[0]] + (" temporary" if len(w) > 1 and w[1] == "TEMPO" else "")
                got = g.get("translation") or ""
                n += 1
                if not (got == want or got.startswith(want + " from ")):
                    bad.append("%s.%s.translation of %r is %r" % (path, which, g["code"], got))
    ti = snap.get("trend_indicator")
    if isinstance(ti, dict):
        for side in ("period_from", "period_until", "period_at"):
            p = ti.get(side)
            m = re.fullmatch(r"(?:FM|TL|AT)(\d\d)(\d\d)", (p or {}).get("code") or "")
            if m:
                n += 1
                expect("%s.%s" % (path, side), _hm(p)[1:], (int(m[1]) % 24, int(m[2])))
    return bad, n


NO_VALUES = (None, False, "", 0)
FREE = {"type_", "oktas", "code"}


def check_groups(snap, path="report"):
    """All decoded groups of a report snapshot against their own codes: list of complaints, number checked."""
    bad, n = times(snap, path)
    st = snap.get("station")
    if isinstance(st, dict) and isinstance(st.get("code"), str):
        n += 1
        if st.get("icao") not in (None, st["code"]):
            bad.append("%s.station: data of %r for code %r" % (path, st["icao"], st["code"]))
        row = STATIONS.get(st["code"])
        if row:
            got = tuple(st.get(k) for k in ("name", "iata", "synop", "latitude", "longitude", "elevation"))
            if got != row:
                bad.append("%s.station: %r, the table says %r" % (path, got, row))
    for prop, rd in SINGLE.items():
        g = snap.get(prop)
        if isinstance(g, dict) and "!class" in g:
            n += 1
            e = mismatch(rd, g)
            if e:
                bad.append("%s.%s: %s" % (path, prop, e))
            elif g.get("code", "?") is None and prop != "type_":
                for k, v in g.items():
                    if not k.startswith("!") and k not in FREE and v not in NO_VALUES:
                        bad.append("%s.%s: %s is %r though no such group was decoded" % (path, prop, k, v))
    for prop, rd in LISTS.items():
        g = snap.get(prop)
        if isinstance(g, dict):
            for j, x in enumerate(g.get("items", [])):
                n += 1
                e = mismatch(rd, x)
                if e:
                    bad.append("%s.%s[%d]: %s" % (path, prop, j, e))
    for prop in ("weather_trends", "changes_forecasted"):
        g = snap.get(prop)
        if isinstance(g, dict):
            for j, x in enumerate(g.get("items", [])):
                b, k = check_groups(x, "%s.%s[%d]" % (path, prop, j))
                bad += b
                n += k
    return bad, n
