"""Histories of one receiver process: decodes, failures, interrupts, reads, callers that modify what they got."""
from . import boot, observe, sched, stream, wire, world


# ------------------------------------------------------------------------------------------- doing things
def clock(q):
    boot.CLOCK.set(q["at"], q.get("tz", 0))


def decode(q):
    clock(q)
    return observe.decode(boot.LIB, q["kind"], q["text"], q["year"], q["month"], q["truncate"])


def outcome(q):
    clock(q)
    return observe.outcome(boot.LIB, q)


def spoil_list(v, how):
    if how == "clear":
        v.clear()
    elif how == "append":
        v.append("JUNK")
    elif how == "reverse":
        v.reverse()
        v.extend(list(v))
    else:
        v[:] = ["JUNK"] * len(v)


def spoil_value(v, how, depth=0):
    if depth > 8:
        return
    if isinstance(v, list):
        for x in list(v):
            spoil_value(x, how, depth + 1)
        spoil_list(v, how)
    elif isinstance(v, dict):
        for x in list(v.values()):
            spoil_value(x, how, depth + 1)
        if how == "clear":
            v.clear()
        elif how == "append":
            v["JUNK"] = "JUNK"
        else:
            for k in list(v):
                v[k] = "JUNK"
    elif isinstance(v, tuple):
        for x in v:
            spoil_value(x, how, depth + 1)


def spoil(obj, how, what="both"):
    """A caller modifies every list and dictionary the report hands out (never the report's own objects)."""
    if what != "lists":
        spoil_dicts(obj, how)
    if what != "dicts":
        spoil_lists(obj, how)


def parts(obj):
    """The answers of every public property of a library object."""
    for name in observe.public_props(type(obj)):
        try:
            yield getattr(obj, name)
        except Exception:
            continue


def spoil_dicts(obj, how, depth=0):
    if depth > 8 or not observe.is_lib(obj):
        return
    for v in parts(obj):
        for x in v if isinstance(v, (list, tuple)) else [v]:
            if isinstance(x, dict):
                spoil_value(x, how)
            else:
                spoil_dicts(x, how, depth + 1)
    if callable(getattr(type(obj), "as_dict", None)):
        try:
            d = obj.as_dict()
        except Exception:
            return
        spoil_value(d, how)


def spoil_lists(obj, how, depth=0):
    if depth > 8 or not observe.is_lib(obj):
        return
    for v in list(parts(obj)):
        if isinstance(v, (list, tuple)):
            for x in v:
                spoil_lists(x, how, depth + 1)
            if isinstance(v, list):
                # the objects in the list have been visited; now the list itself
                spoil_list(v, how)
        else:
            spoil_lists(v, how, depth + 1)


SPOILS = ["clear", "append", "reverse", "junk"]


def perform(op, held):
    """One step.  -> an outcome for decodes, None otherwise."""
    k = op["do"]
    if k == "decode":
        clock(op["q"])
        try:
            rep = observe.decode(boot.LIB, op["q"]["kind"], op["q"]["text"], op["q"]["year"], op["q"]["month"],
                                 op["q"]["truncate"])
        except Exception as e:
            return {"raised": observe.exc(e)}
        held.append(rep)
        if len(held) > 6:
            del held[0]
        return {"report": observe.snapshot(rep)} if op.get("look") else None
    if k == "interrupt":
        clock(op["q"])
        sched.run_interrupted(lambda: decode(op["q"]), op["point"], sched.interrupt_class(op["exc"])("stop"))
    elif k == "reread":
        if held:
            observe.snapshot(held[op["i"] % len(held)])
    elif k == "spoil":
        if held:
            spoil(held[op["i"] % len(held)], op["how"], op.get("what", "both"))
    elif k == "drop":
        if held:
            del held[op["i"] % len(held)]
    elif k == "cut-read":
        if held:
            x = held[op["i"] % len(held)]
            sched.run_interrupted(lambda: observe.snapshot(x), op["point"],
                                  sched.interrupt_class(op["exc"])("stop"))
    return None


# --------------------------------------------------------------------------------------------- generators
class Source:
    """Requests that share stations, times and groups, with many near-duplicates."""

    def __init__(self, r, kinds=("Metar", "Taf"), damage=0.4):
        self.r = r
        self.pool = world.Pool(r, stations=r.sample(world.ALL, r.choice([1, 2, 4])))
        self.pool.reuse = r.choice([0.3, 0.6, 0.8])
        self.uid = world.Uids()
        self.t = world.random_instant(r, 1975, 2085)
        self.kinds = kinds
        # now and then a source of reports that strict receivers mostly reject
        self.strict = r.choice([0.15, 0.15, 0.15, 0.15, 0.9])
        self.damage = damage if self.strict < 0.5 else max(damage, 0.8)
        self.old = []

    def fresh(self, small=False):
        r = self.r
        if r.random() < 0.5:
            self.t = self.t + stream.TD(minutes=r.choice([0, 1, 30, 60, 1440, 44640]))
            if self.t.year > 2090:
                self.t = self.t.replace(year=1980, day=1)
        kind = r.choice(self.kinds)
        units = world.report(r, kind, self.t, self.uid, self.pool, rich=0.1 if small else None)
        ops = []
        if r.random() < self.damage:
            ops = wire.g_ops(r, units, stream.DAMAGE, r.choice([1, 1, 2, 5]), None)
        text = wire.render({"units": units, "ops": ops})[0] or "X"
        given = r.random() < 0.6
        q = {"kind": kind, "text": text, "year": self.t.year if given else None,
             "month": self.t.month if given else None, "truncate": r.random() < self.strict,
             "at": stream.us_of(self.t) + r.randint(0, 3600) * 1000000, "tz": r.choice([0, 0, 330, -600])}
        if given and r.random() < 0.08:  # filed under another month, which may not have that day
            q["year"], q["month"] = r.choice([q["year"], q["year"], r.randint(1950, 2090)]), r.choice([2, r.randint(1, 12)])
        return q

    def near(self, q):
        """Almost the same request as an earlier one."""
        r = self.r
        q = dict(q)
        k = r.choice(["same", "word", "drop", "add", "year", "month", "mode", "kind", "clock", "order", "head"])
        ws = q["text"].split(" ")
        if k == "word" and self.old:
            other = r.choice(self.old)["text"].split(" ")
            ws[r.randrange(len(ws))] = r.choice(other)
        elif k == "drop" and len(ws) > 1:
            del ws[r.randrange(len(ws))]
        elif k == "add":
            ws.insert(r.randint(0, len(ws)), r.choice(wire.NOISE))
        elif k == "order" and len(ws) > 1:
            i, j = r.randrange(len(ws)), r.randrange(len(ws))
            ws[i], ws[j] = ws[j], ws[i]
        elif k == "head":
            ws = ws[: max(1, r.randint(1, len(ws)))]
        elif k == "year":
            q["year"] = None if q["year"] and r.random() < 0.3 else r.randint(1950, 2090)
        elif k == "month":
            q["month"] = None if q["month"] and r.random() < 0.3 else r.randint(1, 12)
        elif k == "mode":
            q["truncate"] = not q["truncate"]
        elif k == "kind":
            q["kind"] = "Taf" if q["kind"] == "Metar" else "Metar"
        elif k == "clock":
            q["at"] = stream.us_of(world.random_instant(r, 1975, 2085))
        q["text"] = " ".join(w for w in ws) or "X"
        return q

    def __call__(self, small=False):
        q = self.near(self.r.choice(self.old)) if self.old and self.r.random() < 0.55 else self.fresh(small)
        self.old.append(q)
        if len(self.old) > 40:
            del self.old[0]
        return q


def g_op(r, src, small=False):
    p = r.random()
    if p < 0.6:
        return {"do": "decode", "q": src(small), "look": r.random() < 0.4}
    if p < 0.72:
        return g_interrupt(r, src())
    if p < 0.8:
        return {"do": "reread", "i": r.randrange(6)}
    if p < 0.92:
        return {"do": "spoil", "i": r.randrange(6), "how": r.choice(SPOILS),
                "what": r.choice(["both", "dicts", "lists"])}
    if p < 0.97:
        return {"do": "cut-read", "i": r.randrange(6), "point": r.choice([r.randint(1, 60), r.randint(1, 3000)]),
                "exc": r.choice(sched.INTERRUPTS)}
    return {"do": "drop", "i": r.randrange(6)}


def g_interrupt(r, q):
    return {"do": "interrupt", "q": q, "point": g_point(r), "exc": r.choice(sched.INTERRUPTS)}


def g_point(r):
    """Anywhere in a decode.  The station table takes some 25,000 points in the middle."""
    p = r.random()
    if p < 0.35:
        return r.randint(1, 500)
    if p < 0.7:
        return r.randint(23000, 29000)
    if p < 0.85:
        return r.randint(1, 5000)
    return r.randint(1, 29000)


def show(q):
    return "%s(%r%s%s%s)" % (
        q["kind"], q["text"], "" if q["year"] is None else ", year=%d" % q["year"],
        "" if q["month"] is None else ", month=%d" % q["month"], ", truncate=True" if q["truncate"] else "")


def shrink_q(q):
    from .runner import drop_one

    ws = q["text"].split(" ")
    for x in drop_one(ws, 1):
        if " ".join(x):
            yield dict(q, text=" ".join(x))
    if q["truncate"]:
        yield dict(q, truncate=False)
    if q.get("tz"):
        yield dict(q, tz=0)
