"""The simulated world: aerodromes that issue METAR, SPECI and TAF reports over simulated time.

A report is a list of units.  A unit is one group as the observer or forecaster meant it (it may consist
of two or three words, for example `1 1/2SM` or `WS ALL RWY`), with its kind, its section and, for times
and periods, the instants it stands for.  Everything is drawn from the run's generator."""
import datetime as _d

from . import boot

D = boot.RealDatetime
TD = _d.timedelta

# ICAO, name, IATA, SYNOP, latitude, longitude, elevation, country (from the published station list)
STATIONS = [
    ("PADK",), ("PAKH",), ("PANC",), ("PZAN",), ("PABA",), ("PACD",), ("PAHL",), ("PAQH",), ("KLAX",),
    ("KJFK",), ("CYYZ",), ("MRLB",), ("MROC",), ("SBGR",), ("BIKF",), ("EDDF",), ("EGLL",), ("LEMD",),
    ("LFPG",), ("FACT",), ("FMMI",), ("FMEE",), ("OMDB",), ("UUEE",), ("RJTT",), ("YSSY",), ("NSFA",),
    ("NTAA",), ("ZZZX",), ("EQ7A",),
]
EARLY = [s[0] for s in STATIONS[:9]]
ALL = [s[0] for s in STATIONS]
# A network of stations all over the world, some of them unknown to any list
MANY = ("BGFD BGGD BGNS CWBY CWCF CWDO CWEX CWGZ CWIT CWJI CWNE CWSD CWVK CWYY CXBP CXFW CXRH CXSI CXTO CYAZ "
        "CYPL CYRT CZEM CZZJ DAFH DBBC EBST EBZW EDDL EDTD EFIL EFKU EFOU EFYL EGDM EGHI EGPK EGPM EGRR EGTK "
        "EGUP EGVG EGXH EHSB ENBL ENHF EPCE EPKT ESOK ETHM ETNH FACV FADN FAES FALW FEFS FGSL FLSN FMMV FNMA "
        "FOON FSSS FYAN FYTE FZKO FZQV FZRA HAAG HESH HTAR K25T K28K K2F1 K2I5 K40J K4MR K53Q K60Y K6V5 K9V6 "
        "KADM KADR KBKE KBOW KBPC KBPK KBWP KC29 KCKC KCWN KCZK KDQH KDVD KEKY KELB KEVM KEVV KEWN KF28 KFFA "
        "KFFL KFVX KGGG KGIF KGLV KGWW KH45 KHDX KHIO KICR KIDA KJER KJSO KJTC KLCK KLNC KM08 KMAE KMGN KMMT "
        "KMTV KMWO KNEW KNSI KOAK KODX KONM KP34 KPNE KRHP KRID KSEG KSME KSTF KSXT KTBR KTLS KTOA KTTF KTTN "
        "KUDX KUEX KUVA KVIV KW66 KWTA KWWD KZAB LCEN LFBU LICL LICX LIMO LIQK LIQS LOAN LOXZ LPGR LRTM LTAG "
        "LTAJ LTBD MGZA MMEP MMLM MMML MSLU MUGM MYGM None None None None None None None OAGN OAKN OEBH OENG "
        "OIFS OIZC OPCH OPSK PAFA PAFE PALU PATG PAUD PHNC PHTO QADI QALS QBSI RCLY RJCK RJOY ROMY RPLL RPUI "
        "RPWJ SAMR SAMU SAZG SAZS SBSP SCSE SELI SKCO SKIP SKLT SLMG SLSB SLVM SPBB SPVL SVMC SVSA TFFF TJBQ "
        "UESO UHSH UNNT VAKD VBSY VTCN VTSK VVNT WADA WAHS WAMN WRBI XGHS XMAR XNOR XPD1 YBMK YPFT ZMUB ZSGZ").split() + [
    "ZZ%s%s" % (a, b) for a in "QXYZ" for b in "ABCDEFGHIJ"]

WX_INT = ["", "", "", "-", "+", "VC", "-VC", "+VC"]
WX_DESC = ["", "", "MI", "PR", "BC", "DR", "BL", "SH", "TS", "FZ"]
WX_PREC = ["DZ", "RA", "SN", "SG", "IC", "PL", "GR", "GS", "UP"]
WX_OBSC = ["BR", "FG", "FU", "VA", "DU", "SA", "HZ", "PY"]
WX_OTHER = ["PO", "SQ", "FC", "SS", "DS", "NSW"]
REC_OBSC = ["BR", "FG", "VA", "DU", "SA", "HZ", "PY"]
REC_OTHER = ["PO", "SQ", "FC", "SS", "DS"]
DIRS = ["N", "NE", "E", "SE", "S", "SW", "W", "NW"]
RMK_WORDS = ["A2992", "SLP134", "PK", "WND", "28032/1815", "AO2", "T00640036", "LTG", "DSNT", "NW", "QFE755",
             "R23/CLRD70", "CIG", "015V020", "WSHFT", "1715", "=", "$", "HZY", "OBS", "P0003", "10066", "21012"]


def new_rng(*key):
    import random

    return random.Random("/".join(str(k) for k in key))


class Uids:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.n


def unit(uid, text, kind, sec, **extra):
    u = {"u": uid(), "t": text, "k": kind, "sec": sec}
    u.update(extra)
    return u


# ------------------------------------------------------------------------------------------ group texts
def g_wind(r, taf=False):
    p = r.random()
    if p < 0.08:
        return "00000" + r.choice(["KT", "KT", "MPS"])
    units = "KT" if r.random() < 0.75 else "MPS"
    if not taf and p < 0.13:
        return r.choice(["/////", "///08", "24///"]) .replace("24///", "240//") + units
    d = "VRB" if r.random() < 0.12 else "%02d0" % r.randint(0, 36)
    top = 45 if units == "KT" else 25
    spd = r.randint(0, top)
    s = "%02d" % spd
    if r.random() < 0.05:
        s = "P%d" % (99 if units == "KT" else 49) if r.random() < 0.5 else "%03d" % r.randint(100, 140)
    g = ""
    if r.random() < 0.3:
        g = "G%02d" % min(99, spd + r.randint(5, 25))
        if r.random() < 0.05:
            g = "GP99"
    if not taf and r.random() < 0.06:  # an instrument has failed: its field is blanked
        d, s, g = [("/" * len(x) if r.random() < 0.4 else x) for x in (d, s)] + [
            g or "G%02d" % r.randint(10, 40)]
    return d + s + g + units


def g_windvar(r):
    return "%02d0V%02d0" % (r.randint(1, 36), r.randint(1, 36))


def g_vis(r, taf=False, sm=None):
    p = r.random()
    if p < 0.28:
        return "9999"
    if p < 0.36:
        return "CAVOK"
    if p < 0.66:
        v = r.choice([r.randrange(0, 800, 50), r.randrange(800, 5000, 100), r.randrange(5000, 10000, 1000)])
        return "%04d" % v
    if p < 0.72 and not taf:
        return "%04d%s" % (r.randrange(100, 9900, 100), r.choice(DIRS))
    if p < 0.86:
        return r.choice(["%dSM" % r.randint(1, 15), "P6SM", "1/4SM", "M1/4SM", "1/2SM", "3/4SM", "5/8SM",
                         "%d %d/%dSM" % ((r.randint(1, 4),) + r.choice([(1, 2), (1, 4), (3, 4), (3, 8)])), "10SM"])
    if p < 0.92:
        return r.choice(["%dKM" % r.randint(1, 20), "10KM", "1/2KM"])
    if taf or p < 0.96:
        return "%04d" % r.randrange(0, 9999)
    return "////"


def g_minvis(r):
    return "%04d%s" % (r.randrange(50, 5000, 50), r.choice(DIRS))


def g_rvr(r):
    name = "%02d%s" % (r.choice([r.randint(1, 36), r.randint(1, 36), 88, 99]), r.choice(["", "", "L", "R", "C"]))
    low = r.choice(["%04d" % r.randrange(50, 2000, 25), "%04d" % r.randrange(50, 2000, 25), "%03d" % r.randrange(50, 999, 25)])
    s = "R%s/%s%s" % (name, r.choice(["", "", "", "M", "P"]), low)
    if r.random() < 0.35:
        s += "V%s%04d" % (r.choice(["", "", "P", "M"]), r.randrange(300, 3000, 50))
    if r.random() < 0.35:
        s += "FT"
    if r.random() < 0.5:
        s += r.choice("NDU")
    return s


def g_wx(r):
    p = r.random()
    if p < 0.06:
        return "NSW"
    if p < 0.12:
        return r.choice(["TS", "VCTS", "VCSH", "-TS", "+SH"])
    i = r.choice(WX_INT)
    d = r.choice(WX_DESC)
    k = r.random()
    if k < 0.55:
        x = r.choice(WX_PREC)
    elif k < 0.9:
        x = r.choice(WX_OBSC)
    else:
        x, d = r.choice(WX_OTHER[:5]), ""
    return i + d + x


def g_cloud(r):
    p = r.random()
    if p < 0.14:
        return r.choice(["SKC", "CLR", "NSC", "NCD"])
    if p < 0.2:
        return "VV" + r.choice(["%03d" % r.randint(0, 12), "///"])
    if p < 0.25:
        return r.choice(["///015", "//////", "BKN///", "FEW///CB", "OVC///", "///015///", "//////CB", "SCT020///"])
    h = r.choice([r.randint(0, 15), r.randint(0, 60), r.randint(0, 250), 15, 50, 10, 5])
    t = r.choice(["", "", "", "", "CB", "TCU"])
    return r.choice(["FEW", "SCT", "BKN", "OVC"]) + "%03d" % h + t


def g_temps(r):
    p = r.random()
    if p < 0.08:
        return r.choice(["/////", "12///", "XX/MM", "M02///", "10/XX", "MM/MM", "///05"])
    t = r.randint(-40, 45)
    d = t - r.randint(0, 15)
    f = lambda x: ("M%02d" % -x) if x < 0 or (x == 0 and r.random() < 0.2) else "%02d" % x
    return f(t) + "/" + f(d)


def g_press(r):
    p = r.random()
    if p < 0.05:
        return r.choice(["Q////", "A////"])
    if p < 0.35:
        return "A%04d" % r.randint(2800, 3100)
    if p < 0.42:
        return "QNH%04dINS" % r.randint(2800, 3100)
    if p < 0.47:
        return "QNH%04d" % r.randint(960, 1050)
    return "Q%04d" % r.randint(940, 1055)


def g_recent(r):
    k = r.random()
    d = r.choice(["", "", "TS", "SH", "FZ", "BL"])
    if k < 0.6:
        return "RE" + d + r.choice(WX_PREC)
    if k < 0.8:
        return "RE" + d + r.choice(REC_OBSC)
    if k < 0.9:
        return "RE" + r.choice(REC_OTHER)
    return "RETS"


def g_ws(r):
    if r.random() < 0.2:
        return "WS ALL RWY"
    return "WS %s%02d%s" % (r.choice(["R", "R", "RWY"]), r.randint(1, 36), r.choice(["", "", "L", "R", "C"]))


def g_sea(r):
    t = "%s%02d" % (r.choice(["", "", "M"]), r.randint(0, 30))
    return "W%s/%s" % (t, "S%d" % r.randint(0, 9) if r.random() < 0.6 else "H%03d" % r.randint(0, 150))


def g_rwy(r):
    name = "%02d%s" % (r.choice([r.randint(1, 36), 88, 99]), r.choice(["", "", "L", "R", "C"]))
    p = r.random()
    if p < 0.15:
        return "R/SNOCLO" if r.random() < 0.5 else "R%s/SNOCLO" % name
    if p < 0.3:
        return "R%s/CLRD//" % name
    dep = r.choice("0123456789/")
    con = r.choice("1259/3")
    depth = r.choice(["//", "%02d" % r.randint(0, 99), "%02d" % r.randint(0, 90), "99"])
    fric = r.choice(["//", "%02d" % r.randint(0, 99), "%02d" % r.randint(0, 90), "95"])
    return "R%s/%s%s%s%s" % (name, dep, con, depth, fric)


# --------------------------------------------------------------------------------------------- reports
def z(t):
    return t.strftime("%d%H%M") + "Z"


class Pool:
    """Texts reused within a run so that groups, stations and times recur across reports."""

    def __init__(self, r, stations=None):
        self.r = r
        self.stations = stations or (r.sample(EARLY, 3) + r.sample(ALL, 3))
        self.seen = {}
        self.reuse = r.choice([0.0, 0.3, 0.6])

    def __call__(self, key, f):
        old = self.seen.setdefault(key, [])
        if old and self.r.random() < self.reuse:
            return self.r.choice(old)
        t = f()
        old.append(t)
        return t


def _forecast_groups(r, uid, sec, pool, taf, rich):
    us = []
    if r.random() < 0.6 * rich + 0.1:
        us.append(unit(uid, pool("wind" + str(taf), lambda: g_wind(r, taf=taf)), "wind", sec))
    cavok = False
    if r.random() < 0.7:
        v = pool("cvis", lambda: g_vis(r, taf=taf))
        cavok = v == "CAVOK"
        us.append(unit(uid, v, "vis", sec))
    if not cavok:
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            us.append(unit(uid, pool("wx", lambda: g_wx(r)), "wx", sec))
        for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4])):
            us.append(unit(uid, pool("cloud", lambda: g_cloud(r)), "cloud", sec))
    return us


def metar(r, issue, uid, pool, rich=None, plain_trend=False):
    """A METAR or SPECI issued at `issue`.  Returns units with ground truth."""
    rich = (3.5 if r.random() < 0.2 else r.random()) if rich is None else rich
    us = []
    add = lambda t, k, sec=0, **e: us.append(unit(uid, t, k, sec, **e))
    if r.random() < 0.9:
        add(r.choice(["METAR", "METAR", "METAR", "SPECI"]), "type")
    add(r.choice(pool.stations), "station")
    add(z(issue), "time", at=issue.isoformat())
    p = r.random()
    if p < 0.03:
        add("NIL", "modifier")
        return us
    if p < 0.25:
        add(r.choice(["AUTO", "COR", "CORR", "TEST", "FINO", "AMD", "AUTO"]), "modifier")
    add(pool("windm", lambda: g_wind(r)), "wind")
    if r.random() < 0.25:
        add(pool("windvar", lambda: g_windvar(r)), "windvar")
    v = pool("vis", lambda: g_vis(r))
    add(v, "vis")
    cavok = v == "CAVOK"
    if not cavok:
        if v[0].isdigit() and len(v) <= 6 and "M" not in v and r.random() < 0.3:
            add(pool("minvis", lambda: g_minvis(r)), "minvis")
        for _ in range(r.choice([0, 0, 0, 1, 2, 3])):
            add(pool("rvr", lambda: g_rvr(r)), "rvr")
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            add(pool("wx", lambda: g_wx(r)), "wx")
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            add(pool("cloud", lambda: g_cloud(r)), "cloud")
    if r.random() < 0.95:
        add(pool("temps", lambda: g_temps(r)), "temps")
    if r.random() < 0.95:
        add(pool("press", lambda: g_press(r)), "press")
        if r.random() < 0.12:
            add(pool("press", lambda: g_press(r)), "press")
    if r.random() < 0.2 * rich + 0.05:
        add(pool("recent", lambda: g_recent(r)), "recent")
    if r.random() < 0.3 * rich:
        for _ in range(r.choice([1, 1, 2, 3])):
            add(pool("ws", lambda: g_ws(r)), "ws")
    if r.random() < 0.25 * rich:
        add(pool("sea", lambda: g_sea(r)), "sea")
    if r.random() < 0.3 * rich:
        add(pool("rwy", lambda: g_rwy(r)), "rwy")
    # trends
    p = r.random()
    n = 0 if p < 0.25 else 1 if p < 0.7 else 2
    if n == 1 and r.random() < 0.3:
        add("NOSIG", "kw", 1, **{"from": issue.isoformat(), "until": (issue + TD(hours=2)).isoformat()})
    else:
        for i in range(n):
            _trend(r, issue, uid, pool, us, i + 1, rich)
    if r.random() < 0.25:
        add("RMK", "rmk", "R")
        for _ in range(r.randint(0, 6)):
            w = r.choice(RMK_WORDS)
            if w not in ("=",):
                add(w, "rmktext", "R")
    return us


def hhmm(t, issue, r, allow24=True):
    s = t.strftime("%H%M")
    if allow24 and s == "0000" and t.date() > issue.date() and r.random() < 0.6:
        return "2400"
    return s


def _trend(r, issue, uid, pool, us, sec, rich):
    frm, til, at = issue, issue + TD(hours=2), None
    periods = []
    span = 120
    p = r.random()
    step = r.choice([1, 5, 10, 30])
    q = lambda lo, hi: issue + TD(minutes=min(hi, max(lo, (r.randint(lo, hi) // step) * step)))
    midnight = (issue + TD(days=1)).replace(hour=0, minute=0)
    near = midnight <= issue + TD(minutes=span)
    if p < 0.3:
        pass
    elif p < 0.45:
        at = midnight if near and r.random() < 0.5 else q(0, span)
        periods = [("AT", at)]
    else:
        a = q(0, span)
        b = q(int((a - issue).total_seconds() // 60), span)
        if near and r.random() < 0.4:
            if r.random() < 0.5:
                b = midnight
                a = min(a, b)
            else:
                a = midnight
                b = max(a, b)
        k = r.random()
        if k < 0.35:
            frm = a
            periods = [("FM", a)]
        elif k < 0.7:
            til = b
            periods = [("TL", b)]
        else:
            frm, til = a, b
            periods = [("FM", a), ("TL", b)]
    kw = r.choice(["TEMPO", "BECMG"])
    us.append(unit(uid, kw, "kw", sec, **{"from": frm.isoformat(), "until": til.isoformat(),
                                         "at": at.isoformat() if at else None}))
    for pre, t in periods:
        us.append(unit(uid, pre + hhmm(t, issue, r), "period", sec, inst=t.isoformat()))
    fc = _forecast_groups(r, uid, sec, pool, False, rich)
    if not fc and not periods:
        fc = [unit(uid, pool("cvis", lambda: g_vis(r)), "vis", sec)]
    us.extend(fc)


def period_code(a, b, r=None):
    """dhdh/dhdh with hour 24 for the midnight that ends a day (on half the occasions)."""
    e = "%02d%02d" % (b.day, b.hour)
    if b.hour == 0 and (r is None or r.random() < 0.6):
        p = b - TD(days=1)
        e = "%02d24" % p.day
    return "%02d%02d/%s" % (a.day, a.hour, e)


def taf(r, issue, uid, pool, rich=None, max_changes=6, start=None, hours=None):
    rich = r.random() if rich is None else rich
    us = []
    add = lambda t, k, sec=0, **e: us.append(unit(uid, t, k, sec, **e))
    if r.random() < 0.92:
        add("TAF", "type")
    amd = r.random() < 0.2
    if amd:
        add(r.choice(["AMD", "COR"]), "modifier")
    add(r.choice(pool.stations), "station")
    add(z(issue), "time", at=issue.isoformat())
    p = r.random()
    if p < 0.02:
        add("NIL", "nil")
        return us
    top = issue.replace(minute=0, second=0)
    if start is None:
        lead = r.choice([-6, -3, -1, 0, 1, 1, 1, 2, 6, 7, 12, 18, 24, r.randint(-6, 24)])
        start = top + TD(hours=lead)
        if start < issue - TD(hours=6):
            start += TD(hours=1)
    if hours is None:
        hours = r.choice([9, 12, 18, 24, 24, 24, 30, 30, r.randint(1, 30)])
    end = start + TD(hours=hours)
    add(period_code(start, end, r), "valid", 0, **{"from": start.isoformat(), "until": end.isoformat()})
    if p < 0.05:
        add("CNL", "cnl")
        return us
    add(pool("windt", lambda: g_wind(r, taf=True)), "wind")
    v = pool("vist", lambda: g_vis(r, taf=True))
    add(v, "vis")
    if v != "CAVOK":
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            add(pool("wx", lambda: g_wx(r)), "wx")
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            add(pool("cloud", lambda: g_cloud(r)), "cloud")
    if r.random() < 0.6:
        temps = []
        for k in "XN":
            for _ in range(r.choice([0, 1, 1, 2])):
                t = start + TD(hours=r.randint(0, hours))
                temps.append((k, t))
        if r.random() < 0.5:
            r.shuffle(temps)
        for k, t in temps:
            c = r.randint(-30, 45)
            add("T%s%s%02d/%s%02dZ" % (k, "M" if c < 0 else "", abs(c), t.strftime("%d"), t.hour), "txtn",
                0, inst=t.isoformat(), which=k)
    # changes
    n = min(max_changes, r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 8]))
    cursor = start
    chg = []
    for i in range(n):
        sec = i + 1
        left = int((end - cursor).total_seconds() // 3600)
        p = r.random()
        if p < 0.35 and left >= 1:
            # FM: strictly after the cursor so that instants increase
            t = cursor + TD(minutes=r.choice([0, 10, 30, 45]) + 60 * r.randint(0, max(0, left - 1)))
            t = min(t, end - TD(minutes=15))
            chg.append({"sec": sec, "type": "FM", "from": t})
            us.append(unit(uid, "FM" + t.strftime("%d%H%M"), "kw", sec))
            cursor = min(end, t.replace(minute=0) + TD(hours=1))
        else:
            kw = r.choice(["TEMPO", "BECMG", "PROB30", "PROB40", "PROB30 TEMPO", "PROB40 TEMPO", "TEMPO", "BECMG"])
            a = cursor + TD(hours=r.randint(0, max(0, left - 1)))
            if a >= end:
                a = end - TD(hours=1)
            b = min(end, a + TD(hours=r.randint(1, 6)))
            chg.append({"sec": sec, "type": kw.split()[0][:4], "from": a, "until": b})
            us.append(unit(uid, kw, "kw", sec))
            us.append(unit(uid, period_code(a, b, r), "valid", sec, **{"from": a.isoformat(), "until": b.isoformat()}))
            cursor = a
        us.extend(_forecast_groups(r, uid, sec, pool, True, rich))
    for i, c in enumerate(chg):
        if c["type"] == "FM":
            until = end
            for d in chg[i + 1:]:
                if d["type"] in ("FM", "BECM"):
                    until = d["from"] - TD(hours=1)
                    break
            c["until"] = until
        for u in us:
            if u["sec"] == c["sec"] and u["k"] == "kw":
                u["from"] = c["from"].isoformat()
                u["until"] = c["until"].isoformat()
                u["chg"] = c["type"]
    return us


def random_instant(r, lo=1996, hi=2044):
    """An instant of the simulated calendar, biased to borders of days, months, leap days and years."""
    y = r.randint(lo, hi)
    p = r.random()
    if p < 0.3:
        t = D(y, r.randint(1, 12), 1) + TD(days=r.randint(0, 27), minutes=r.randint(0, 1439))
    elif p < 0.55:
        t = D(y, r.randint(1, 12), 1) + TD(minutes=r.randint(-1560, 1560))
    elif p < 0.7:
        t = D(y, 3, 1) + TD(minutes=r.randint(-2880, 1560))
    elif p < 0.85:
        t = D(y, 1, 1) + TD(minutes=r.randint(-1560, 1560))
    else:
        t = D(y, r.randint(1, 12), r.randint(1, 28)) + TD(minutes=r.choice([0, 30, 1410, 1439, 1380, 1320, 1350]))
    if r.random() < 0.5:
        t = t.replace(minute=r.choice([0, 20, 30, 50]))
    return t


def report(r, kind, issue, uid, pool, **kw):
    return metar(r, issue, uid, pool, **kw) if kind == "Metar" else taf(r, issue, uid, pool, **kw)


def text(units):
    return " ".join(u["t"] for u in units)
