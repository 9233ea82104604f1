"""The simulated links between the stations and the receiver, and the faults they inject.

Faults are explicit operations, so that a run is its list of operations and a run can be minimised by
leaving operations out.  Unit faults name a unit by its number; text faults act on the rendered text."""
import re

UNIT_OPS = ("lose", "garble", "flip", "insert", "drop", "dup", "swap", "move", "split", "merge", "noise", "mask",
            "typo", "transpose", "chop")
EACH = ("garble", "flip", "insert", "drop", "split", "merge", "mask", "mask", "mask", "typo", "typo", "transpose",
        "chop")
TEXT_OPS = ("cut_tail", "cut_head", "ctrl", "flip_at", "drop_at", "insert_at", "join", "case")
GARBAGE = "#*?%~&!"  # never part of a report: a group garbled with these is beyond recognition
REPORT_CHARS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/+-"
CTRL = "\x00\x07\x08\x1b\x7f\x01\x02\x11"
NOISE = ["NIL", "AUTO", "COR", "AMD", "CNL", "RMK", "NOSIG", "TEMPO", "BECMG", "PROB30", "PROB20", "FM", "FM2512",
         "FM251200", "FM312359", "FM000000", "TL2400", "AT2400", "CAVOK", "9999", "////", "/", "//", "//////", "-",
         "+", "VC", "RE", "WS", "ALL", "RWY", "TX12/", "TX12/2524Z", "TXM05/3123Z", "TN00/0100Z", "R88/CLRD//",
         "R/SNOCLO", "SNOCLO", "Q1013", "A2992", "METAR", "SPECI", "TAF", "MROC", "312460Z", "300000Z", "310000Z",
         "290000Z", "252400Z", "000000Z", "3124/3124", "3000/3124", "0100/0100", "1/0SM", "1/2KM", "0/0SM", "1", "3",
         "1/2SM", "M1/4SM", "0000", "0000NE", "3000EW", "BKN///", "OVC///CB", "VV///", "/////KT", "VRB///MPS",
         "VRB99G99KT", "///", "XX/XX", "MM/MM", "M//M//", "W99/H999", "WM00/S9", "R99/999999", "R88L////////",
         "R09L/////VP", "TS", "SM", "KM", "U", "P", "PROB30 TEMPO", "WS ALL RWY", "WS R09", "REMI", "|", "a|b",
         "_", "1_1/2SM", "=", "==", "0", "Z", "KT", "QNH////INS", "QNH2992INS", "3000", "A0000", "Q0000", "2992",
         "1013", "RMKS", "TEMPOX", "BECMG1", "NOSIGX", "PROB", "PROB30TEMPO", "FM2X1000", "5KM", "99KM"]


def apply_units(units, ops):
    """Apply the unit faults in order.  Returns (units, fired) where every unit has a `state`."""
    us = [dict(u, state="ok") for u in units]
    fired = {}
    idx = lambda n: next((i for i, u in enumerate(us) if u["u"] == n), None)
    fresh = 100000

    for op in ops:
        k = op["op"]
        if k not in UNIT_OPS:
            continue
        i = idx(op["u"])
        if i is None:
            continue
        u = us[i]
        t = u["t"]
        done = True
        if k == "lose":
            del us[i]
        elif k in ("garble", "flip", "typo"):
            p = op["pos"] % max(1, len(t))
            if not t or t[p] == " ":
                done = False
            else:
                n = t[:p] + op["ch"] + t[p + 1:]
                done = n != t
                u["t"] = n
                u["state"] = "garbled" if k == "garble" else "flipped" if u["state"] != "garbled" else "garbled"
        elif k == "insert":
            p = op["pos"] % (len(t) + 1)
            u["t"] = t[:p] + op["ch"] + t[p:]
            u["state"] = "garbled" if op["ch"] in GARBAGE or u["state"] == "garbled" else "flipped"
        elif k == "drop":
            p = op["pos"] % max(1, len(t))
            u["t"] = t[:p] + t[p + 1:]
            if u["state"] == "ok":
                u["state"] = "flipped"
            if not u["t"].strip():
                del us[i]
        elif k == "mask":
            p = op["pos"] % max(1, len(t))
            n = t[:p] + "".join("/" if c != " " else c for c in t[p:p + op["n"]]) + t[p + op["n"]:]
            done = n != t
            u["t"] = n
            if u["state"] == "ok" and done:
                u["state"] = "flipped"
        elif k == "transpose":
            p = op["pos"] % max(1, len(t) - 1)
            n = t[:p] + t[p:p + 2][::-1] + t[p + 2:]
            done = n != t and " " not in t[p:p + 2]
            if done:
                u["t"] = n
                if u["state"] == "ok":
                    u["state"] = "flipped"
        elif k == "chop":
            n = t[op["n"]:] if op["end"] == "head" else t[:max(0, len(t) - op["n"])]
            if u["state"] == "ok":
                u["state"] = "flipped"
            u["t"] = n.strip()
            if not u["t"]:
                del us[i]
        elif k == "dup":
            for n in range(op.get("times", 1)):
                fresh += 1
                us.insert(i + 1, dict(u, u=fresh, state="dup"))
        elif k == "swap":
            j = idx(op["v"])
            if j is None or j == i:
                done = False
            else:
                us[i], us[j] = us[j], us[i]
                us[i]["state"] = us[j]["state"] = "moved"
        elif k == "move":
            us.pop(i)
            us.insert(op["pos"] % (len(us) + 1), u)
            u["state"] = "moved"
        elif k == "split":
            if len(t) < 2:
                done = False
            else:
                p = 1 + op["pos"] % (len(t) - 1)
                u["t"] = t[:p] + " " + t[p:]
                u["state"] = "flipped"
        elif k == "merge":
            if i + 1 >= len(us):
                done = False
            else:
                u["t"] = t + us[i + 1]["t"]
                u["state"] = "flipped"
                del us[i + 1]
        elif k == "noise":
            fresh += 1
            us.insert(i, {"u": fresh, "t": op["t"], "k": "noise", "sec": u["sec"], "state": "noise"})
        if done:
            fired[k] = fired.get(k, 0) + 1
    return us, fired


def apply_text(text, ops, fired):
    for op in ops:
        k = op["op"]
        if k not in TEXT_OPS:
            continue
        old = text
        if k == "cut_tail":
            text = text[: max(1, len(text) - op["n"])]
        elif k == "cut_head":
            text = text[min(len(text) - 1, op["n"]):]
        elif k in ("ctrl", "insert_at"):
            p = op["pos"] % (len(text) + 1)
            text = text[:p] + op["ch"] + text[p:]
        elif k == "flip_at":
            p = op["pos"] % max(1, len(text))
            text = text[:p] + op["ch"] + text[p + 1:]
        elif k == "drop_at":
            p = op["pos"] % max(1, len(text))
            text = text[:p] + text[p + op.get("n", 1):]
        elif k == "join":
            text = text + op["sep"] + op["t"]
        elif k == "case":
            text = text.lower()
        if text != old:
            fired[k] = fired.get(k, 0) + 1
    return text


def layout_text(words, lay):
    """Lay the words out as a relay would: blanks, folded lines, indentation, end-of-message sign."""
    if not lay:
        return " ".join(words)
    out = [lay.get("head", "")]
    seps = lay["seps"]
    for i, w in enumerate(words):
        if i:
            out.append(seps[(i - 1) % len(seps)])
        out.append(w)
    out.append(lay.get("tail", ""))
    return "".join(out)


def render(delivery):
    """Units, faults and layout of a delivery -> (received text, surviving units, fired fault counts)."""
    us, fired = apply_units(delivery["units"], delivery.get("ops", ()))
    words = " ".join(u["t"] for u in us).split(" ")
    if delivery.get("layout"):
        text = layout_text([w for w in words if w], delivery["layout"])
        fired["layout"] = fired.get("layout", 0) + 1
    else:
        text = " ".join(words)
    text = apply_text(text, delivery.get("ops", ()), fired)
    return text, us, fired


# ------------------------------------------------------------------------------------------- generators
def g_each(r, units, kind, share):
    """One kind of fault at many groups: a failed sensor, a noisy line, a careless typist."""
    return [dict(g_op(r, [u], [kind]), u=u["u"]) for u in units if r.random() < share]


def g_op(r, units, kinds, other_text=None):
    k = r.choice(kinds)
    op = {"op": k}
    if k in UNIT_OPS:
        if not units:
            return None
        u = r.choice(units)
        if r.random() < 0.5:  # rare kinds of groups as often as common ones
            k2 = r.choice(sorted({v["k"] for v in units}))
            u = r.choice([v for v in units if v["k"] == k2])
        op["u"] = u["u"]
        n = max(1, len(u["t"]))
        if k == "garble":
            op["pos"], op["ch"] = r.randrange(n), r.choice(GARBAGE)
        elif k == "flip":
            op["pos"], op["ch"] = r.randrange(n), r.choice(REPORT_CHARS + GARBAGE + "|_=")
        elif k == "insert":
            op["pos"], op["ch"] = r.randrange(n + 1), r.choice(REPORT_CHARS + GARBAGE + "|_=")
        elif k in ("drop", "split"):
            op["pos"] = r.randrange(n)
        elif k == "move":
            op["pos"] = r.randrange(len(units))
        elif k == "dup":
            op["times"] = r.choice([1, 1, 1, 2, 3, 9])
        elif k == "swap":
            op["v"] = r.choice(units)["u"]
        elif k == "noise":
            op["t"] = r.choice(NOISE)
        elif k == "mask":
            op["pos"], op["n"] = g_run(r, u["t"])
        elif k == "typo":
            op["pos"] = r.randrange(n)
            c = u["t"][op["pos"]]
            op["ch"] = r.choice("0123456789" if c.isdigit() else "MPVGTZAQRWSNEDCBFHKLUX/" if c.isalpha() else "/-+M")
        elif k == "transpose":
            op["pos"] = r.randrange(n)
        elif k == "chop":
            op["end"], op["n"] = r.choice(["head", "tail"]), r.choice([1, 1, 2, 3, 4, 5])
    else:
        if k == "cut_tail":
            op["n"] = r.choice([r.randint(1, 12), r.randint(1, 60), r.randint(1, 200)])
        elif k == "cut_head":
            op["n"] = r.choice([r.randint(1, 12), r.randint(1, 60)])
        elif k == "ctrl":
            op["pos"], op["ch"] = r.randrange(300), r.choice(CTRL)
        elif k == "insert_at":
            op["pos"], op["ch"] = r.randrange(300), r.choice(REPORT_CHARS + GARBAGE + "|_= \n\r\t")
        elif k == "flip_at":
            op["pos"], op["ch"] = r.randrange(300), r.choice(REPORT_CHARS + GARBAGE + "|_= ")
        elif k == "drop_at":
            op["pos"], op["n"] = r.randrange(300), r.choice([1, 1, 2, 5, 9])
        elif k == "join":
            op["sep"] = r.choice([" ", "= ", "=\n", "\n\n", "", " = "])
            op["t"] = other_text or r.choice(NOISE)
    return op


def g_run(r, t):
    """Position and length of a part of a group that a sensor fills in: a run of digits or of letters."""
    runs = [(m.start(), len(m.group())) for m in re.finditer(r"\d+|[A-Z]+", t)]
    if not runs or r.random() < 0.2:
        return r.randrange(max(1, len(t))), r.choice([1, 2, 3, 4])
    p, n = r.choice(runs)
    if r.random() < 0.3:
        p, n = p + r.randrange(n), 1
    return p, n


def g_ops(r, units, kinds, n, other_text=None):
    ops = []
    for _ in range(n):
        op = g_op(r, units, kinds, other_text)
        if op:
            ops.append(op)
    return ops


def g_layout(r, nwords):
    blanks = r.choice([[" "], [" ", " ", "  ", "   "], [" ", "\n"], [" ", "\r\n"], [" ", "\r"], [" ", "\t"],
                       [" ", "\n      ", "\r\n      "], ["\r\r\n", " "], [" ", " \n", "\t ", "\n\n", "\r\n\r\n  "],
                       ["\n"], ["\t"], ["  "], [" ", "\x0b", "\x0c"]])
    lay = {"seps": [r.choice(blanks) for _ in range(max(1, nwords - 1))]}
    lay["head"] = r.choice(["", "", "", " ", "\n", "\r\n", "\t", "    ", "\n\n "])
    lay["tail"] = r.choice(["", "", "=", " =", "=\n", "=\r\n", " =\n", "\n=", "  ", "\n", "\r\n=\r\n", "\t=", " = "])
    return lay
