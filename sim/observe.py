"""Everything a caller can read from a report, as plain data.

The walk is driven by the classes themselves (every public property, str, len, iteration, index,
as_dict, to_json and the public query methods), not by a list of names, so that a refactoring of the
library does not make it fail."""
import datetime
import hashlib
import json

QUERIES = ("should_be_cavok",)
PRIMS = (str, int, float, bool, bytes, type(None))

_props_cache = {}


def public_props(cls):
    p = _props_cache.get(cls)
    if p is None:
        names = set()
        for k in cls.__mro__:
            for n, v in vars(k).items():
                if isinstance(v, property) and not n.startswith("_"):
                    names.add(n)
        p = _props_cache[cls] = tuple(sorted(names))
    return p


def is_lib(obj):
    return type(obj).__module__.split(".")[0] == "aeromet_py"


def is_list(obj):
    """A group list: a library object with a length, items and indexing."""
    return is_lib(obj) and hasattr(type(obj), "__getitem__") and hasattr(type(obj), "__len__")


def exc(e):
    return {"!exc": type(e).__name__, "msg": str(e)}


def plain(v, errors, path, depth=0):
    if isinstance(v, PRIMS):
        if isinstance(v, float) and v != v:
            return {"!nan": 1}
        return v
    if isinstance(v, datetime.datetime):
        return {"!t": v.isoformat()}
    if isinstance(v, datetime.timedelta):
        return {"!d": v.total_seconds()}
    if isinstance(v, (list, tuple)):
        return [plain(x, errors, path + "[%d]" % i, depth + 1) for i, x in enumerate(v)]
    if isinstance(v, dict):
        return {str(k): plain(x, errors, path + "." + str(k), depth + 1) for k, x in v.items()}
    if is_lib(v):
        return snapshot(v, errors, path, depth + 1)
    return {"!other": type(v).__name__}


def attempt(f, errors, path):
    try:
        return f()
    except Exception as e:  # recorded: the caller decides what it means
        if errors is not None:
            errors.append((path, type(e).__name__, str(e)[:200]))
        return exc(e)


def snapshot(obj, errors=None, path="report", depth=0):
    """All public answers of `obj`, recursively.  `errors` collects (path, exception, message)."""
    if depth > 12:
        return {"!deep": type(obj).__name__}
    out = {"!class": type(obj).__name__}
    for name in public_props(type(obj)):
        p = path + "." + name
        v = attempt(lambda: getattr(obj, name), errors, p)
        out[name] = plain(v, errors, p, depth)
    out["!str"] = attempt(lambda: str(obj), errors, "str(%s)" % path)
    if hasattr(type(obj), "__len__"):
        out["!len"] = attempt(lambda: len(obj), errors, "len(%s)" % path)
    if is_list(obj):
        items = attempt(lambda: [x for x in obj], errors, "iter(%s)" % path)
        if isinstance(items, list):
            # `items` is a property and has been walked above; here only order and identity matter
            inner = attempt(lambda: obj.items, None, path)
            out["!iter"] = [
                next((i for i, y in enumerate(inner) if y is x), -1) for x in items
            ] if isinstance(inner, list) else len(items)
            n = len(items)
            out["!index"] = [
                attempt(lambda: next((j for j, y in enumerate(items) if y is obj[i]), -1), errors,
                        "%s[%d]" % (path, i)) for i in range(n)
            ]
        else:
            out["!iter"] = items
    for q in QUERIES:
        if callable(getattr(type(obj), q, None)):
            out["!" + q] = attempt(lambda: getattr(obj, q)(), errors, "%s.%s()" % (path, q))
    if callable(getattr(type(obj), "as_dict", None)):
        d = attempt(lambda: obj.as_dict(), errors, "%s.as_dict()" % path)
        out["!dict"] = plain(d, errors, path + ".as_dict()", depth)
    if callable(getattr(type(obj), "to_json", None)):
        out["!json"] = attempt(lambda: obj.to_json(), errors, "%s.to_json()" % path)
    return out


def decode(LIB, kind, text, year=None, month=None, truncate=False):
    """Decode through the public constructor, as a user would."""
    cls = LIB[kind]
    kw = {}
    if year is not None:
        kw["year"] = year
    if month is not None:
        kw["month"] = month
    if truncate:
        kw["truncate"] = True
    return cls(text, **kw)


def outcome(LIB, d, errors=None):
    """The observable outcome of one decode: the report's snapshot or the exception."""
    try:
        r = decode(LIB, d["kind"], d["text"], d.get("year"), d.get("month"), d.get("truncate", False))
    except Exception as e:
        return {"raised": exc(e)}
    return {"report": snapshot(r, errors)}


def canon(o):
    return json.dumps(o, sort_keys=True, default=str)


def digest(o):
    return hashlib.blake2b(canon(o).encode("utf-8", "surrogatepass"), digest_size=10).hexdigest()


def diff(a, b, path="", out=None, limit=6):
    """Paths where two plain structures differ."""
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        out.append((path, a, b))
    elif isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a:
                out.append((path + "." + k, "<absent>", b[k]))
            elif k not in b:
                out.append((path + "." + k, a[k], "<absent>"))
            else:
                diff(a[k], b[k], path + "." + k, out, limit)
            if len(out) >= limit:
                break
    elif isinstance(a, list):
        if len(a) != len(b):
            out.append((path + ".length", len(a), len(b)))
        for i in range(min(len(a), len(b))):
            diff(a[i], b[i], path + "[%d]" % i, out, limit)
    elif a != b:
        out.append((path, a, b))
    return out


def brief(x, n=160):
    s = canon(x) if not isinstance(x, str) else x
    return s if len(s) <= n else s[: n - 3] + "..."


def diff_text(a, b):
    return "; ".join("%s: %s != %s" % (p, brief(x), brief(y)) for p, x, y in diff(a, b))
