"""C23: the views of a group list.  Used by the proof and by the worker: no import of the engine here."""

CAPS = {"runway_ranges": 3, "weathers": 3, "clouds": 4, "windshears": 3, "weather_trends": 2, "max_temperatures": 2,
        "min_temperatures": 2, "changes_forecasted": 8}
METAR = ["runway_ranges", "weathers", "clouds", "windshears", "weather_trends"]
TAF = ["weathers", "clouds", "max_temperatures", "min_temperatures", "changes_forecasted"]
SECTION = ["weathers", "clouds"]


def of_report(obj, what):
    """(path, list, capacity) of the lists of a report."""
    out = []
    for n in METAR if what == "metar" else TAF:
        l = getattr(obj, n)
        out.append((n, l, CAPS[n]))
        if n in ("weather_trends", "changes_forecasted"):
            for i, s in enumerate(l):
                out += [(f"{n}[{i}].{m}", getattr(s, m), CAPS[m]) for m in SECTION]
    return out


def same_ids(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def equal(a, b):
    return a == b


def views(l, cap, groups=None, eq=equal):
    """What is wrong with the views of a list, or None: cap is its capacity (None if unknown), groups what it holds."""
    g = [x for x in l] if groups is None else groups
    n = len(g)
    if cap is not None and n > cap:
        return f"holds {n} groups"
    if len(l) != n:
        return f"len is {len(l)} with {n} groups"
    if not same_ids([x for x in l], g):
        return "iteration gives other groups"
    if not same_ids(list(l.items), g):
        return "items are other groups"
    for i in range(n):
        try:
            if l[i] is not g[i]:
                return f"[{i}] is another group"
        except Exception as e:
            return f"[{i}] raises {type(e).__name__}"
    c = l.codes
    if len(c) != n or not all(eq(x, y.code) for x, y in zip(c, g)):
        return "codes are those of other groups"
    if cap is not None:
        for i in (cap, cap + 1, cap + 1000):
            e = outcome(lambda: l[i])
            if e != "RangeError":
                return f"[{i}] gives {e or 'a group'} instead of RangeError"
    return None


def outcome(f):
    try:
        f()
    except Exception as e:
        return type(e).__name__
    return None


def fill(l, donors, cap, snap, eq=equal):
    """Adds the donors one after another; what is wrong, or None, and the number of obligations met."""
    held = [x for x in l]
    n = 0
    for d in donors:
        before = snap() if len(held) >= cap else None
        e = outcome(lambda: l.add(d))
        n += 2
        if len(held) < cap:
            if e is not None:
                return f"adding a group to {len(held)} of {cap} raises {e}", n
            held.append(d)
        elif e != "RangeError":
            return f"adding a group to a full list gives {e or 'no error'}", n
        elif snap() != before:
            return "a full list is changed by adding", n
        w = views(l, cap, held, eq)
        if w:
            return f"after adding {len(held)} groups: {w}", n
    return None, n
