"""C21: what the dictionaries must hold, in terms of the attributes.

Shared by the proof (symbolic attributes) and by the worker that runs the plain
code: no import of the engine here.
"""
import json

LABELS = ["first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth"]

METAR = [("type_", "type_", "type"), ("station", "station", "station"), ("time", "time", "time"),
         ("modifier", "modifier", "modifier"), ("wind", "wind", "wind"),
         ("wind_variation", "wind_variation", "wind_variation"),
         ("prevailing_visibility", "prevailing_visibility", "vis"),
         ("minimum_visibility", "minimum_visibility", "minvis"), ("runway_ranges", "runway_ranges", ["rvr"]),
         ("weathers", "weathers", ["weather"]), ("clouds", "clouds", ["cloud"]),
         ("temperatures", "temperatures", "temps"), ("pressure", "pressure", "pressure"),
         ("recent_weather", "recent_weather", "recent"), ("windshears", "windshears", ["windshear"]),
         ("sea_state", "sea_state", "sea"), ("runway_state", "runway_state", "rwystate")]
TAF = [("type_", "type_", "type"), ("station", "station", "station"), ("time", "time", "time"),
       ("modifier", "modifier", "modifier"), ("missing", "missing", "missing"), ("valid", "valid", "valid"),
       ("cancelled", "cancelled", "cancelled"), ("wind", "wind", "wind"),
       ("prevailing_visibility", "prevailing_visibility", "vis"), ("weathers", "weathers", ["weather"]),
       ("clouds", "clouds", ["cloud"]), ("max_temperatures", "max_temperatures", ["ttemp"]),
       ("min_temperatures", "min_temperatures", ["ttemp"])]
SECTION = [("wind", "wind", "wind"), ("prevailing_visibility", "prevailing_visibility", "vis")]


class Limit:
    """The limit word that begins the text of a range of that many metres."""

    def __init__(self, text, value):
        self.text = text
        self.value = value


class Text:
    """The text of a value."""

    def __init__(self, x):
        self.x = x


def special(x, ops):
    if isinstance(x, tuple) and x and x[0] in ("str", "limit", "time?"):
        if x[0] == "str":
            return ops.text(x[1])
        if x[0] == "limit":
            return Limit(x[1], x[2])
        return None if x[1] is None else {"datetime": ops.text(x[1].time), "code": x[1].code}
    if isinstance(x, dict):
        return {k: special(v, ops) for k, v in x.items()}
    return x


def leaves(exp, act, path):
    """(path, expected, actual) of the values of a dictionary that has at least the expected keys."""
    if isinstance(exp, dict):
        if not isinstance(act, dict):
            yield path, "a dictionary", act
            return
        for k, v in exp.items():
            if k not in act:
                yield f"{path}[{k}]", v, KeyError(k)
            else:
                yield from leaves(v, act[k], f"{path}[{k}]")
    elif isinstance(exp, list):
        if not isinstance(act, list) or len(act) != len(exp):
            yield path, f"{len(exp)} items", act
            return
        for i, (e, a) in enumerate(zip(exp, act)):
            yield from leaves(e, a, f"{path}[{i}]")
    else:
        yield path, exp, act


def group_pairs(spec, obj, kind, loc, ops):
    """The dictionary of a group against its attributes."""
    a = lambda n: ops.read(obj, n)
    yield from leaves(special(spec[kind](a), ops), obj.as_dict(), loc + ".as_dict()")


def exact(d, path):
    """The whole dictionary, nothing more and nothing less."""
    return d


def parts(spec, obj, what, ops):
    """The contract of the dictionaries in independent parts: functions giving (path, expected, actual)."""
    out = []
    add = lambda f, *a: out.append(lambda: f(*a))
    if what == "metar":
        lst, ind, kind = "weather_trends", "trend_indicator", "tind"
    else:
        lst, ind, kind = "changes_forecasted", "change_indicator", "cind"
    secs = [(f"{lst}[{i}]", s) for i, s in enumerate(getattr(obj, lst).items)]
    for key, loc, k in METAR if what == "metar" else TAF:
        o = getattr(obj, loc)
        if isinstance(k, list):
            for i, x in enumerate(o.items):
                add(group_pairs, spec, x, k[0], f"{loc}[{i}]", ops)
            add(list_pairs, o, key, ops)
        else:
            add(group_pairs, spec, o, k, loc, ops)
            add(json_pairs, o, key, ops)
    add(top_pairs, obj, what, lst)
    for p, s in secs:
        add(group_pairs, spec, getattr(s, ind), kind, f"{p}.{ind}", ops)
        for key, loc, k in SECTION:
            add(group_pairs, spec, getattr(s, loc), k, f"{p}.{loc}", ops)
        for loc, k in (("weathers", "weather"), ("clouds", "cloud")):
            for i, x in enumerate(getattr(s, loc).items):
                add(group_pairs, spec, x, k, f"{p}.{loc}[{i}]", ops)
        add(section_pairs, s, p, ind, ops)
    add(list_pairs, getattr(obj, lst), lst, ops)
    add(json_pairs, obj, "", ops)
    return out


def list_pairs(o, key, ops):
    d = {LABELS[i]: x.as_dict() for i, x in enumerate(o.items)}
    yield from whole_pairs(d, o.as_dict(), key + ".as_dict()")
    yield from json_pairs(o, key, ops)


def top_pairs(obj, what, lst):
    """The dictionary of the report is made of those of its groups."""
    whole = obj.as_dict()
    for key, loc, k in (METAR if what == "metar" else TAF) + [(lst, lst, "")]:
        yield from whole_pairs(getattr(obj, loc).as_dict(), whole.get(key, KeyError(key)), f"as_dict()[{key}]")
    top = {"code": obj.raw_code, "sections": list(obj.sections), "unparsed_groups": list(obj.unparsed_groups)}
    if what == "metar":
        top["flight_rules"] = obj.flight_rules
        top["remark"] = obj.remark
    yield from leaves(top, whole, "as_dict()")


def section_pairs(s, p, ind, ops):
    sd = s.as_dict()
    for key, loc, _ in SECTION:
        yield from whole_pairs(getattr(s, loc).as_dict(), sd.get(key, KeyError(key)), f"{p}.as_dict()[{key}]")
    for loc in ("weathers", "clouds"):
        yield from whole_pairs([x.as_dict() for x in getattr(s, loc).items], sd.get(loc, KeyError(loc)),
                               f"{p}.as_dict()[{loc}]")
    yield from leaves({"flight_rules": s.flight_rules, "code": s.code}, sd, f"{p}.as_dict()")
    yield from json_pairs(getattr(s, ind), f"{p}.{ind}", ops)
    yield from json_pairs(s, p, ops)


def pairs(spec, obj, what, ops):
    """(path, expected, actual) over the whole report."""
    for f in parts(spec, obj, what, ops):
        yield from f()


def whole_pairs(exp, act, path):
    if isinstance(exp, dict) and isinstance(act, dict) and set(exp) != set(act):
        yield path, sorted(exp), sorted(act)
    yield from leaves(exp, act, path)


def json_pairs(o, loc, ops):
    yield from ops.json(o, (loc + "." if loc else "") + "to_json()")


def json_text(o, path):
    """to_json() of concrete values is the JSON text of the dictionary."""
    try:
        a = json.loads(o.to_json())
    except ValueError as e:
        a = e
    yield from leaves(json.loads(json.dumps(o.as_dict())), a, path)


def limit_text(limit, value):
    """Text of a range with that limit."""
    return "" if value is None else (limit + " " if limit else "") + f"{value:.1f} m"
