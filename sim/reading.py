"""Programs of reads on one report: what a caller may ask, in any order, with loops open at the same time.

A program is a list of plain steps with random numbers; which object and which question a step stands for
is found from the baseline (the snapshot of the same report taken in a pristine process), so that the
answer expected is always known beforehand."""
from . import observe

HOW = ["list", "len", "index", "last", "for", "back", "reversed", "in", "zip", "beyond"]
SPECIAL = {"!str": "str", "!len": "len", "!dict": "as_dict", "!json": "to_json"}


# ------------------------------------------------------------------------------------------- programs
def g_program(r, n):
    steps = []
    opened = 0
    for _ in range(n):
        p = r.random()
        if p < 0.45:
            steps.append({"do": "ask", "n": r.randrange(1 << 16), "q": r.randrange(1 << 16), "via": r.randrange(3)})
        elif p < 0.53:
            steps.append({"do": "nested", "l": r.randrange(1 << 16), "m": r.randrange(1 << 16) if r.random() < 0.5 else None,
                          "stop": r.choice([None, None, 0, 1, 2])})
        elif p < 0.65:
            steps.append({"do": "open", "l": r.randrange(1 << 16), "how": r.choice(["iter", "for"])})
            opened += 1
        elif p < 0.82 and opened:
            steps.append({"do": "next", "k": r.randrange(opened), "times": r.choice([1, 1, 2, 5])})
        elif p < 0.86 and opened:
            steps.append({"do": "abandon", "k": r.randrange(opened)})
        elif p < 0.9:
            steps.append({"do": "list", "l": r.randrange(1 << 16), "how": r.choice(HOW)})
        elif p < 0.96:
            steps.append({"do": "ask", "n": 0, "q": r.randrange(1 << 16), "via": 0})
        else:
            steps.append({"do": "all"})
    return steps


# --------------------------------------------------------------------------------------------- objects
def tree(base):
    """Nodes (path, snapshot) of the baseline; a path is a list of property names and list positions."""
    nodes = []

    def walk(s, path, depth):
        nodes.append((path, s))
        if depth > 6:
            return
        lst = "!iter" in s
        for k in sorted(s):
            v = s[k]
            if k[0] == "!":
                continue
            if isinstance(v, dict) and "!class" in v:
                walk(v, path + [k], depth + 1)
            elif isinstance(v, list) and (k == "items" and lst):
                for i, x in enumerate(v):
                    if isinstance(x, dict) and "!class" in x:
                        walk(x, path + [i], depth + 1)

    walk(base, [], 0)
    return nodes


def resolve(rep, path, via):
    obj = rep
    for step in path:
        if isinstance(step, str):
            obj = getattr(obj, step)
        elif via == 0:
            obj = obj[step]
        elif via == 1:
            obj = obj.items[step]
        else:
            for i, x in enumerate(obj):
                if i == step:
                    obj = x
                    break
    return obj


def questions(s):
    return [k for k in sorted(s) if k not in ("!class", "!iter", "!index")]


def ask(obj, k):
    """The plain answer to question k of an object, and never an error of our own."""
    try:
        if k == "!str":
            return str(obj)
        if k == "!len":
            return len(obj)
        if k == "!dict":
            return observe.plain(obj.as_dict(), None, "")
        if k == "!json":
            return obj.to_json()
        if k.startswith("!"):
            return getattr(obj, k[1:])()
        return observe.plain(getattr(obj, k), None, "")
    except Exception as e:
        return observe.exc(e)


def sig(s):
    return [s.get("!str"), s.get("code")]


def live_sig(x):
    return [str(x), getattr(x, "code", None)]


class Reader:
    """Runs a program on a live report, comparing every answer with the baseline."""

    def __init__(self, rep, base, nodes=None):
        self.rep = rep
        self.base = base
        self.nodes = nodes or tree(base)
        self.lists = [(p, s) for p, s in self.nodes if "!iter" in s and isinstance(s.get("items"), list) and s["items"]]
        self.lists += [x for x in self.lists if len(x[1]["items"]) > 1] * 3
        self.its = []
        self.asked = 0

    def lst(self, n):
        if not self.lists:
            return None, None, []
        p, s = self.lists[n % len(self.lists)]
        return resolve(self.rep, p, 0), "/".join(map(str, p)), [sig(x) for x in s["items"]]

    def step(self, st):
        """-> complaint or None"""
        do = st["do"]
        self.asked += 1
        if do == "ask":
            path, s = self.nodes[st["n"] % len(self.nodes)]
            qs = questions(s)
            q = qs[st["q"] % len(qs)]
            name = "report%s %s" % ("".join(".%s" % x if isinstance(x, str) else "[%d]" % x for x in path), q)
            try:
                got = ask(resolve(self.rep, path, st["via"]), q)
            except Exception as e:
                return "%s: %s: %s" % (name, type(e).__name__, e)
            if got != s[q]:
                return "%s: %s" % (name, observe.diff_text({"answer": s[q]}, {"answer": got}))
        elif do == "all":
            got = observe.snapshot(self.rep)
            if got != self.base:
                return "the whole report: %s" % observe.diff_text(self.base, got)
        elif do == "open":
            lst, name, want = self.lst(st["l"])
            if lst is None:
                return None
            it = iter(lst) if st["how"] == "iter" else iter([]) if lst is None else (x for x in lst)
            self.its.append([it, name, want, 0])
        elif do == "next":
            if not self.its:
                return None
            e = self.its[st["k"] % len(self.its)]
            for _ in range(st["times"]):
                c = self.advance(e)
                if c:
                    return c
        elif do == "abandon":
            if self.its:
                self.its[st["k"] % len(self.its)][0] = None
        elif do == "list":
            lst, name, want = self.lst(st["l"])
            if lst is None:
                return None
            how = st["how"]
            if how == "list":
                got = [live_sig(x) for x in list(lst)]
            elif how == "for":
                got = []
                for x in lst:
                    got.append(live_sig(x))
                    if len(got) > len(want) + 3:
                        break
            elif how == "len":
                got, want = len(lst), len(want)
            elif how == "index":
                got = [live_sig(lst[i]) for i in range(len(want))]
            elif how == "back":
                got = [live_sig(lst[i - len(want)]) for i in range(len(want))]
            elif how == "reversed":
                got, want = [live_sig(x) for x in reversed(lst)], want[::-1]
            elif how == "in":
                got, want = [x in lst for x in lst.items], [True] * len(want)
            elif how == "zip":
                got, want = [[live_sig(x), live_sig(y)] for x, y in zip(lst, lst)], [[x, x] for x in want]
            elif how == "beyond":
                ends = (len(want), 99, -len(want) - 1)
                got, want = [], ["error"] * 3
                for i in ends:
                    try:
                        got.append(live_sig(lst[i]))
                    except Exception:
                        got.append("error")
            else:
                got, want = live_sig(lst[len(want) - 1]), want[-1]
            if got != want:
                return "%s of %s: %s instead of %s" % (how, name, observe.brief(got), observe.brief(want))
        elif do == "nested":
            a, na, wa = self.lst(st["l"])
            if a is None:
                return None
            b, nb, wb = (a, na, wa) if st["m"] is None else self.lst(st["m"])
            outer = []
            for x in a:
                outer.append(live_sig(x))
                inner = []
                for y in b:
                    if st["stop"] is not None and len(inner) == st["stop"]:
                        break
                    inner.append(live_sig(y))
                    if len(inner) > len(wb) + 3:
                        break
                want = wb if st["stop"] is None else wb[: st["stop"]]
                if inner != want:
                    return "the loop over %s inside one over %s: %s instead of %s" % (
                        nb, na, observe.brief(inner), observe.brief(want))
                if len(outer) > len(wa) + 3:
                    break
            if outer != wa:
                return "the loop over %s with one over %s inside: %s instead of %s" % (
                    na, nb, observe.brief(outer), observe.brief(wa))
        return None

    def advance(self, e):
        it, name, want, i = e
        if it is None:
            return None
        try:
            got = live_sig(next(it))
        except StopIteration:
            e[0] = None
            return None if i == len(want) else "a loop over %s ended after %d of %d items" % (name, i, len(want))
        if i >= len(want) or got != want[i]:
            return "item %d of a loop over %s: %s instead of %s" % (
                i, name, observe.brief(got), observe.brief(want[i] if i < len(want) else "the end"))
        e[3] += 1
        return None

    def close(self):
        """Every loop still open runs to its end."""
        for e in self.its:
            while e[0] is not None:
                c = self.advance(e)
                if c:
                    return c
        return None

    def run(self, program):
        for n, st in enumerate(program):
            try:
                c = self.step(st)
            except Exception as e:
                c = "%s: %s: %s" % (st["do"], type(e).__name__, e)
            if c:
                return "read %d: %s" % (n + 1, c)
        c = self.close()
        return c and "finishing the open loops: " + c
