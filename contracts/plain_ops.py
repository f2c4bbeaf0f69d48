"""Checks of plain (concrete) reports, in the worker."""
import json
import os
import subprocess
import sys

if __package__:
    from . import dicts, readers
    from .sequences import SOME
else:
    import dicts
    import readers
    from sequences import SOME


class Ops:
    read = None

    @staticmethod
    def text(x):
        return str(x)

    json = staticmethod(dicts.json_text)


def check_dicts(obj, q):
    import plain
    from plain_model import D
    Ops.read = staticmethod(plain.read)
    path = "as_dict()"
    try:
        for path, e, a in dicts.pairs(D, obj, q["cls"], Ops):
            ok = e.text == dicts.limit_text(a, e.value) if isinstance(e, dicts.Limit) else type(e) is type(a) and e == a
            if not ok:
                return {"path": path, "expected": repr(e), "actual": repr(a)}
    except Exception as e:
        return {"path": path, "expected": "a dictionary", "actual": f"{type(e).__name__}: {e}"}
    return None


def op_paths(q):
    import plain
    cls = plain.Metar if q["cls"] == "metar" else plain.Taf
    try:
        obj = cls(q["text"], year=q["year"], month=q["month"])
    except Exception as e:
        return {"error": str(e)}
    out = []
    readers.walk(obj, "", out)
    return out


def take(obj, path):
    """What a reading gives, as comparable data."""
    import plain
    try:
        return data(plain.read(obj, path))
    except Exception as e:
        return f"{type(e).__name__}: {e}"


def data(x):
    if isinstance(x, (list, tuple)):
        return [data(i) for i in x]
    if isinstance(x, dict):
        return {str(k): data(v) for k, v in x.items()}
    if readers.ours(x):
        return f"{type(x).__name__} {getattr(x, 'code', None)!r}"
    return repr(x)


def check_readers(obj, q):
    import plain
    out = []
    readers.walk(obj, "", out)
    if q["what"] == "total":
        for p in out:
            try:
                plain.read(obj, p)
            except Exception as e:
                return {"path": p, "expected": "a value", "actual": f"{type(e).__name__}: {e}"}
        return None
    cls = plain.Metar if q["cls"] == "metar" else plain.Taf
    new = lambda: cls(q["text"], year=q["year"], month=q["month"])
    o = new()
    first = [take(o, p) for p in out]
    for order in (reversed(range(len(out))), range(len(out))):
        for i in order:
            v = take(o, out[i])
            if v != first[i]:
                return {"path": out[i] + " (read again)", "expected": first[i], "actual": v}
    if q.get("deep"):
        for i, p in enumerate(out):
            v = take(new(), p)
            if v != first[i]:
                return {"path": p + " (read after the others)", "expected": v, "actual": first[i]}
    return None


def build(cls, text, year, month):
    import plain
    return (plain.Metar if cls == "metar" else plain.Taf)(text, year=year, month=month)


def readings(o):
    out = []
    readers.walk(o, "", out)
    return {p: take(o, p) for p in out}


def everything(cls, text, year, month):
    """All that can be read from a report."""
    try:
        o = build(cls, text, year, month)
    except Exception as e:
        return {"": f"{type(e).__name__}: {e}"}
    return readings(o)


ALONE = {}


def alone(r):
    """All that can be read from a report built in its own process."""
    key = tuple(r)
    if key not in ALONE:
        p = subprocess.run([sys.executable, "-B", plain_file, "one"], input=json.dumps({"op": "everything", "r": r}) + "\n",
                           capture_output=True, text=True, cwd="/")
        ALONE[key] = json.loads(p.stdout.splitlines()[0]) if p.stdout else None
    return ALONE[key]


plain_file = os.path.join(os.path.dirname(os.path.abspath(__file__)), "plain.py")


def op_everything(q):
    return everything(*q["r"])


def op_history(q):
    """The reports built one after another against each one built alone, read at once and after building all."""
    built = []
    for n, r in enumerate(q["reports"]):
        try:
            o = build(*r)
        except Exception as e:
            o, a = None, {"": f"{type(e).__name__}: {e}"}
        else:
            a = readings(o)
        b = alone(r)
        if b is None:
            continue
        if o is not None:
            built.append((n, r, o, b))
        for p in sorted(set(a) | set(b)):
            if a.get(p) != b.get(p):
                return {"report": r, "place": n, "path": p, "alone": b.get(p), "after the others": a.get(p)}
    for n, r, o, b in built:
        a = readings(o)
        for p in sorted(set(a) | set(b)):
            if a.get(p) != b.get(p):
                return {"report": r, "place": n, "path": p, "alone": b.get(p),
                        "after the others": a.get(p), "read": "after building them all"}
    return {"ok": len(q["reports"])}


def variants(r):
    """The report without each of its words."""
    w = r[1].split(" ")
    return [[r[0], " ".join(w[:i] + w[i + 1:]), r[2], r[3]] for i in range(len(w)) if len(w) > 1]


def check_other(obj, q):
    """The readings that must be those of another report; and those of the report built alone."""
    import plain
    cls = plain.Metar if q["cls"] == "metar" else plain.Taf
    if q.get("base") is not None:
        try:
            b = cls(q["base"], year=q["year"], month=q["month"])
        except Exception:
            b = None
        if b is not None:
            for p, pb in q["pairs"]:
                x, y = take(obj, p), take(b, pb)
                if isinstance(y, str) and y.startswith("raised"):
                    continue
                if x != y and not near(x, y):
                    return {"path": p, "expected": f"{y} as in {q['base']!r}", "actual": x}
    if q.get("deep"):
        r = [q["cls"], q["text"], q["year"], q["month"]]
        h = op_history({"reports": [r] + SOME + [r] + SOME + [r, r] + variants(r) + [r] + SOME[::-1] + [r]})
        if "ok" not in h:
            return {"path": f"history: {h['path']} of {h['report'][1]!r}", "expected": h["alone"],
                    "actual": h["after the others"]}
    return None


def near(x, y):
    try:
        return abs(float(x) - float(y)) <= 1e-9 * max(1, abs(float(x)))
    except (TypeError, ValueError):
        return False


EXTRAS = {"dicts": check_dicts, "readers": check_readers, "other": check_other}
OPS = {"paths": op_paths, "everything": op_everything, "history": op_history}


class Number(str):
    """Text that float() reads as a given number."""
    number = 0.0

    def __float__(self):
        return self.number


def op_number(q):
    """Attributes of a numeric class for a number."""
    import importlib

    import plain
    k = getattr(importlib.import_module("aeromet_py.reports.models.base"), q["cls"])
    if q["value"] is None:
        code = None
    else:
        code = Number("777" if q["cls"] != "Distance" else "7777")
        code.number = q["value"] if q["cls"] != "Temperature" else q["value"] * 10
        if not float(code) == code.number:
            return "unknown"
    try:
        o = k(code)
    except Exception as e:
        return [plain.raised(e)] * len(q["attrs"])
    return plain.values(o, q["attrs"])


def op_conversion(q):
    import importlib

    import plain
    c = getattr(importlib.import_module("aeromet_py.utils").Conversions, q["name"], None)
    if c is None:
        return "absent"
    try:
        return plain.enc(c if q["value"] is None else c(q["value"]))
    except Exception as e:
        return plain.raised(e)


def op_points(q):
    import importlib
    k = importlib.import_module("aeromet_py.reports.models.base").Direction
    out = []
    for n in q["names"]:
        try:
            out.append(k.from_cardinal(n).cardinal)
        except Exception as e:
            out.append(f"{type(e).__name__}: {e}")
    return out


OPS.update(number=op_number, conversion=op_conversion, points=op_points)


# ---------------------------------------------------------------- group lists

def check_views(obj, q):
    import lists
    for path, l, cap in lists.of_report(obj, q["cls"]):
        w = lists.views(l, cap)
        if w:
            return {"path": path, "expected": "the views of the list agree", "actual": w}
    return None


def op_capacity(q):
    import importlib

    import lists
    base = importlib.import_module("aeromet_py.reports.models.base")

    class One(base.Group):
        def as_dict(self):
            return {"code": self.code}
    n = q["n"]
    l = base.GroupList(n)
    held = []
    for k in range(q["most"]):
        g = One(f"G{k}")
        e = lists.outcome(lambda: l.add(g))
        if k < n:
            if e:
                return f"adding group {k + 1} raises {e}"
            held.append(g)
        elif e != "RangeError":
            return f"adding group {k + 1} gives {e}"
        w = lists.views(l, n if k == q["most"] - 1 else None, held)
        if w:
            return f"after {k + 1} additions: {w}"
    e = lists.outcome(lambda: l[q["index"]])
    if e != "RangeError":
        return f"index {q['index']} gives {e}"
    return None


def op_fill(q):
    import lists
    import plain
    cls = plain.Metar if q["cls"] == "metar" else plain.Taf
    kw = dict(year=q["year"], month=q["month"])
    try:
        o, d = cls(q["text"], **kw), [cls(q["donor"], **kw) for _ in range(q["times"])]
    except Exception:
        return None

    def snap():
        out = []
        readers.walk(o, "", out)
        return {p: take(o, p) for p in out}
    try:
        return lists.fill(getattr(o, q["list"]), [g for x in d for g in getattr(x, q["list"])], lists.CAPS[q["list"]], snap)[0]
    except Exception as e:
        return f"{type(e).__name__}: {e}"


EXTRAS["views"] = check_views
OPS.update(capacity=op_capacity, fill=op_fill)


# ---------------------------------------------------------------- stations

def op_stations(q):
    import plain
    out = []
    for c in q["codes"]:
        try:
            if q["via"] == "metar":
                o = plain.Metar(f"METAR {c} 071200Z 10005KT", year=2022, month=3)
            else:
                o = plain.Taf(f"TAF {c} 071130Z 0712/0812 10005KT", year=2022, month=3)
            s = o.station
            v = [getattr(s, f) for f in q["fields"]]
            out.append(None if v == [c] + [None] * (len(v) - 1) else v)
        except Exception as e:
            out.append(f"{type(e).__name__}: {e}")
    return out


OPS.update(stations=op_stations)


# ---------------------------------------------------------------- sections

BODY = {"metar": ("type_", "station", "time", "modifier", "wind", "wind_variation", "prevailing_visibility",
                  "minimum_visibility", "temperatures", "pressure", "recent_weather", "sea_state", "runway_state"),
        "taf": ("type_", "modifier", "station", "time", "missing", "valid", "cancelled", "wind", "prevailing_visibility")}
BODY_LISTS = {"metar": ("runway_ranges", "weathers", "clouds", "windshears"),
              "taf": ("weathers", "clouds", "max_temperatures", "min_temperatures")}


def shown(o, singles, lists):
    out = {k: getattr(o, k).code for k in singles}
    out.update({k: list(getattr(o, k).codes) for k in lists})
    return out


def summary(cls, text, truncate=False):
    """What the report shows of its sections and groups."""
    import plain
    try:
        o = (plain.Metar if cls == "metar" else plain.Taf)(text, year=2022, month=3, **({"truncate": True} if truncate else {}))
    except Exception as e:
        return {"raised": type(e).__name__, "text": str(e)}
    return summary_of(o, cls)


def summary_of(o, cls):
    try:
        secs = o.weather_trends if cls == "metar" else o.changes_forecasted
        ind = "trend_indicator" if cls == "metar" else "change_indicator"
        out = {"raw": o.raw_code, "body": shown(o, BODY[cls], BODY_LISTS[cls]),
               "sections": [shown(s, (ind, "wind", "prevailing_visibility"), ("weathers", "clouds")) for s in secs],
               "section_unparsed": [list(s.unparsed_groups) for s in secs], "unparsed": list(o.unparsed_groups),
               "codes": [s.code for s in secs], "parts": list(o.sections)}
        if cls == "metar":
            out["texts"] = [o.body, o.trend, o.remark]
        else:
            out["texts"] = [o.body, o.weather_changes]
        return out
    except Exception as e:
        return {"raised": "reading: " + type(e).__name__, "text": str(e)}


def op_summaries(q):
    return [summary(q["cls"], t, q.get("truncate", False)) for t in q["texts"]]


OPS.update(summaries=op_summaries)


def truncated(cls, text):
    """C03 for one text: what differs, or None."""
    import plain
    a = summary(cls, text)
    b = summary(cls, text, True)
    if "raised" in a:
        if a["raised"] == "ParserError":
            return "construction without truncate", "no ParserError", a["text"]
        return None if b == a else ("construction with truncate", a, b)
    left = a["unparsed"]
    if not left:
        if b != a:
            if "raised" in b:
                return "construction with truncate", "a report", f"{b['raised']}: {b['text']}"
            return "with truncate", a, b
        new = lambda kw: (plain.Metar if cls == "metar" else plain.Taf)(text, year=2022, month=3, **kw)
        x, y = new({"truncate": True}), new({})
        if x.as_dict() != y.as_dict() or str(x) != str(y):
            return "with truncate", y.as_dict(), x.as_dict()
        return None
    if b.get("raised") != "ParserError":
        return "construction with truncate", "ParserError", b.get("raised") or "a report"
    return message(b["text"], left, a["raw"])


def message(m, left, raw):
    """What is missing in the message of a ParserError, or None."""
    pos = 0
    for w in left:
        i = m.find(w, pos)
        if i < 0:
            return "message of ParserError", f"{w!r} in order", m
        pos = i + len(w)
    if m.find(raw, pos) < 0:
        return "message of ParserError", f"the text {raw!r}", m
    return None


def op_truncated(q):
    return [truncated(q["cls"], t) for t in q["texts"]]


OPS.update(truncated=op_truncated)


def total(cls, text, year, month):
    """C04 for one text: what fails, or None."""
    import contextlib
    import io

    import plain
    buf = io.StringIO()
    path = "construction"
    try:
        with contextlib.redirect_stdout(buf):
            obj = (plain.Metar if cls == "metar" else plain.Taf)(text, year=year, month=month)
            out = []
            readers.walk(obj, "", out)
            for path in out:
                plain.read(obj, path)
    except Exception as e:
        if path == "construction" and allowed(cls, text, e):
            return None
        return {"path": path, "actual": f"{type(e).__name__}: {e}"}
    if buf.getvalue():
        return {"path": "printed", "actual": buf.getvalue()[:200]}
    return None


def allowed(cls, text, e):
    """The two exceptions that a text can have."""
    if type(e).__name__ == "RangeError":
        ws = text.split()
        if cls == "metar":
            return sum(w.startswith(("TEMPO", "BECMG", "NOSIG", "FM", "TL", "AT")) for w in ws) > 2
        return sum(w.startswith(("TEMPO", "BECMG", "FM", "PROB")) for w in ws) > 8 or any(
            sum(w.startswith(x) for w in ws) > 2 for x in ("TX", "TN"))
    if type(e) is ValueError:
        return "day is out of range for month" in str(e) or "day " in str(e) and "month" in str(e)
    return False


def op_total(q):
    return [total(q["cls"], t, q["year"], q["month"]) for t in q["texts"]]


OPS.update(total=op_total)
