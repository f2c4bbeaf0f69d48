"""Reports around the groups under proof."""
from pyvc import core
from pyvc.core import Lift

from . import dates, grammar
from .grammar import G
from .report import CHANGE_ORDER, METAR_ORDER, TAF_ORDER, TREND_ORDER, Rep

YEAR, MONTH = 2022, 3


def _fit(parts, text, i=0, asg=None):
    """Assignment of the variables that makes the pieces spell the text."""
    if i == len(parts):
        return asg if text == "" else None
    p = parts[i]
    if isinstance(p, str):
        return _fit(parts, text[len(p):], i + 1, asg) if text.startswith(p) else None
    for r, v in p.table.items():
        if text.startswith(v):
            a = dict(asg or {})
            if any(a.get(x, y) != y for x, y in zip(p.vars, r)):
                continue
            a.update(zip(p.vars, r))
            out = _fit(parts, text[len(v):], i + 1, a)
            if out is not None:
                return out
    return None


_FIXED = {}


def fixed(kind, text, ctx="metar"):
    """The concrete group of that kind with that text, with its decoded values."""
    k = (kind, text, ctx)
    if k in _FIXED:
        return _FIXED[k]
    for g in generators(kind)(ctx):
        parts = [g.text] if isinstance(g.text, str) else g.text.parts
        asg = _fit(parts, text, 0, {})
        if asg is not None:
            out = instance(g, asg)
            _FIXED[k] = out
            return out
    raise ValueError(f"{text} is not a {kind}")


def instance(g, asg):
    n = G.__new__(G)
    n.kind, n.label = g.kind, g.label
    asg = dict(asg)
    for v in core.all_vars(g.base):
        asg.setdefault(v, v.dom[0])
    n.text = core.assign(g.text, asg)
    n.base = core.assign(g.base, asg)
    n.extra = core.assign(g.extra, asg)
    return n


def generators(kind):
    if kind == "modifier":
        return grammar.modifiers
    return grammar.KINDS[kind]


def metar_header(time="071200Z", code="PANC", typ="METAR"):
    return [dates.rtype(typ), dates.station(code), dates.the_time(time, YEAR, MONTH)]


def taf_header(time="071130Z", valid="0712/0812", code="PANC"):
    return [dates.rtype("TAF"), dates.station(code), dates.the_time(time, YEAR, MONTH), dates.the_valid(valid)]


METAR_FULL = [("modifier", "AUTO"), ("wind", "18015G25KT"), ("wind_variation", "150V210"), ("vis", "4000"),
              ("minvis", "1500SE"), ("rvr", "R07L/0800U"), ("weather", "-RA"), ("weather", "BR"),
              ("cloud", "SCT012"), ("cloud", "BKN040CB"), ("temps", "12/M01"), ("pressure", "Q1012"),
              ("recent", "RETS"), ("windshear", "WS R07"), ("sea", "W12/S4"), ("rwystate", "R07/290055")]
TREND_FULL = [("wind", "27010KT"), ("vis", "2000"), ("weather", "+SHRA"), ("weather", "FG"), ("cloud", "FEW008"),
              ("cloud", "OVC020")]
TAF_FULL = [("wind", "18015G25KT"), ("vis", "4000"), ("weather", "-RA"), ("weather", "BR"), ("cloud", "SCT012"),
            ("cloud", "BKN040CB")]
LISTKINDS = {"rvr": 3, "weather": 3, "cloud": 4, "windshear": 3}


def _replaced(full, kind, gs, order, ctx):
    """The groups of full with those of a kind replaced by gs."""
    out = []
    done = False
    for k, t in full:
        if k == kind:
            if not done:
                out += gs
                done = True
            continue
        out.append(fixed(k, t, ctx))
    if not done:
        pos = order.index(kind)
        i = 0
        while i < len(out) and order.index(out[i].kind) <= pos:
            i += 1
        out[i:i] = gs
    return out


def _needs(kind, g):
    """Groups that must come before so that g is read as its kind."""
    if kind == "minvis":
        return [fixed("vis", "8000")]
    if kind == "pressure" and g.label == "nnnn":
        return [fixed("temps", "12/08")]
    return []


# every context: name -> (kinds, function (kind, g) -> Rep)

def metar_min(kind, g):
    return Rep("metar", metar_header() + _needs(kind, g) + [g])


def metar_full(kind, g):
    return Rep("metar", metar_header() + _replaced(METAR_FULL, kind, [g], METAR_ORDER, "metar"))


def metar_first(kind, g):
    o = {"rvr": "R25/1200FT", "weather": "VCSH", "cloud": "FEW003", "windshear": "WS R25C"}[kind]
    return Rep("metar", metar_header() + [g, fixed(kind, o)])


def metar_last(kind, g):
    o = {"rvr": ["R25/1200FT", "R26C/P1500V2000D"], "weather": ["VCSH", "+SN"],
         "cloud": ["FEW003", "SCT010TCU", "BKN020"], "windshear": ["WS R25C", "WS RWY03L"]}[kind]
    return Rep("metar", metar_header() + [fixed(kind, x) for x in o] + [g])


def _trend(head, kind, g, full):
    if full:
        return head + _replaced(TREND_FULL, kind, [g], TREND_ORDER, "trend")
    return head + [g]


METAR_BASE = [("wind", "09005KT"), ("vis", "9999"), ("cloud", "FEW040"), ("temps", "20/10"), ("pressure", "Q1018")]


def _metar_base():
    return metar_header() + [fixed(k, t) for k, t in METAR_BASE]


def trend_min(kind, g):
    return Rep("metar", metar_header(), [[dates.tind("TEMPO"), g]])


def trend_full(kind, g):
    return Rep("metar", _metar_base(), [_trend([dates.tind("BECMG")], kind, g, True)])


def trend_second(kind, g):
    first = [dates.tind("TEMPO")] + [fixed(k, t, "trend") for k, t in TREND_FULL]
    return Rep("metar", _metar_base(), [first, _trend([dates.tind("BECMG")], kind, g, False)])


def trend_one(kind, g):
    """The first of two trends."""
    second = [dates.tind("BECMG")] + [fixed(k, t, "trend") for k, t in TREND_FULL]
    return Rep("metar", _metar_base(), [_trend([dates.tind("TEMPO")], kind, g, False), second], "RMK A2 25010KT")


def taf_min(kind, g):
    return Rep("taf", taf_header() + [g])


def taf_full(kind, g):
    return Rep("taf", taf_header() + _replaced(TAF_FULL, kind, [g], TAF_ORDER, "taf"))


def taf_changes(kind, g):
    """The body of a TAF with changes."""
    return Rep("taf", taf_header() + _replaced(TAF_FULL, kind, [g], TAF_ORDER, "taf"),
               [[dates.cind("TEMPO"), dates.the_valid("0714/0716", "cper"), fixed("wind", "27020KT", "taf"),
                 fixed("vis", "2000", "taf"), fixed("weather", "TSRA", "taf"), fixed("cloud", "BKN006", "taf")]])


def _taf_base():
    return taf_header() + [fixed("wind", "09005KT", "taf"), fixed("vis", "9999", "taf"), fixed("cloud", "FEW040", "taf")]


def change_min(kind, g):
    return Rep("taf", taf_header(), [[dates.cind("TEMPO"), dates.the_valid("0714/0716", "cper"), g]])


def change_full(kind, g):
    return Rep("taf", _taf_base(), [_trend([dates.cind("BECMG"), dates.the_valid("0714/0716", "cper")], kind, g, True)])


def change_fm(kind, g):
    return Rep("taf", _taf_base(), [_trend([dates.the_fm("FM071800")], kind, g, False)])


def change_prob(kind, g):
    return Rep("taf", _taf_base(), [_trend([dates.cind("PROB30"), dates.the_valid("0714/0716", "cper")], kind, g, False)])


def change_probtempo(kind, g):
    return Rep("taf", _taf_base(),
               [_trend([dates.cind("PROB40 TEMPO"), dates.the_valid("0714/0716", "cper")], kind, g, False)])


def change_second(kind, g):
    first = [dates.the_fm("FM071800")] + [fixed(k, t, "taf") for k, t in TREND_FULL]
    third = [dates.cind("TEMPO"), dates.the_valid("0800/0804", "cper"), fixed("wind", "31030G45KT", "taf"),
             fixed("vis", "CAVOK", "taf")]
    return Rep("taf", _taf_base(),
               [first, _trend([dates.cind("BECMG"), dates.the_valid("0720/0722", "cper")], kind, g, False), third])


METAR_KINDS = list(grammar.KINDS)
FOUR = ["wind", "vis", "weather", "cloud"]

CONTEXTS = {
    "metar": (METAR_KINDS, "metar", metar_min),
    "metar-full": (METAR_KINDS, "metar", metar_full),
    "metar-first": (list(LISTKINDS), "metar", metar_first),
    "metar-last": (list(LISTKINDS), "metar", metar_last),
    "trend": (FOUR, "trend", trend_min),
    "trend-full": (FOUR, "trend", trend_full),
    "trend-second": (FOUR, "trend", trend_second),
    "trend-one": (FOUR, "trend", trend_one),
    "taf": (FOUR, "taf", taf_min),
    "taf-full": (FOUR, "taf", taf_full),
    "taf-changes": (FOUR, "taf", taf_changes),
    "change": (FOUR, "change", change_min),
    "change-full": (FOUR, "change", change_full),
    "change-fm": (FOUR, "change", change_fm),
    "change-prob": (FOUR, "change", change_prob),
    "change-probtempo": (FOUR, "change", change_probtempo),
    "change-second": (FOUR, "change", change_second),
}
QUICK = ["metar", "metar-full", "metar-last", "trend", "trend-second", "taf", "change", "change-fm"]


def shapes(kinds, contexts):
    """(name, function giving the report, kind) of every shape of the kinds in the contexts."""
    for c in contexts:
        ks, gctx, f = CONTEXTS[c]
        for k in kinds:
            if k not in ks:
                continue
            for g in grammar.KINDS[k](gctx):
                if g.extra.get("contexts") and c not in g.extra["contexts"]:
                    continue
                yield f"{k} {g.label} in {c}", f, k, g
