"""The documented formats of the groups, as symbolic groups.

Each function yields symbolic groups that together cover every well-formed
group of that kind: a text with symbolic parts and the decoded values (`base`).
"""
from pyvc import core
from pyvc.core import lift, var
from pyvc.strings import mk

D10 = "0123456789"
N2 = ["%02d" % i for i in range(100)]
N3 = ["%03d" % i for i in range(1000)]
N4 = ["%04d" % i for i in range(10000)]
CARD = ["N", "NE", "E", "SE", "S", "SW", "W", "NW"]
DIRS = ["%03d" % i for i in range(0, 370, 10)]
VDIRS = DIRS[1:]
RWYS = ["%02d" % i for i in range(100)]


class G:
    __slots__ = ("kind", "text", "base", "label", "extra")

    def __init__(self, kind, parts, base, label="", **extra):
        self.kind = kind
        self.text = mk(parts) if not isinstance(parts, str) else parts
        self.base = base
        if "code" not in base and kind != "junk":
            self.base = {"code": self.text, **base}
        self.label = label
        self.extra = extra

    def __repr__(self):
        return f"<{self.kind} {self.label} {self.text!r}>"


def lit(*opts):
    """Optional part as a symbolic choice."""
    return var("opt", opts)


def num(x):
    return lift(lambda s: float(s) if s.isdigit() else None, x)


# ------------------------------------------------------------------ header

def types(ctx="metar"):
    t = var("type", ("METAR", "SPECI", "TAF"))
    yield G("type", [t], {}, "type")


def modifiers(ctx="metar"):
    m = var("mod", ("COR", "AMD") if ctx == "taf" else ("COR", "CORR", "AMD", "NIL", "TEST", "FINO", "AUTO"))
    yield G("modifier", [m], {}, "mod")


# ------------------------------------------------------------------ wind

def winds(ctx="metar"):
    slash = ctx in ("metar", "trend")
    for unit in ("KT", "MPS"):
        for nd in (2, 3):
            for gust in (0, 2, 3):
                d = var("dir", DIRS + (["///"] if slash else []) + ["VRB"])
                p = lit("", "P")
                sp = var("spd", N2 if nd == 2 else N3)
                parts = [d, p, sp]
                g = None
                if gust:
                    g = var("gust", N2 if gust == 2 else N3)
                    parts += ["G", lit("", "P"), g]
                yield G("wind", parts + [unit], wind_base(d, sp, g, unit), f"{unit}{nd}G{gust}")
        if slash:
            for sl in ("//", "///"):
                d = var("dir", DIRS + ["///", "VRB"])
                yield G("wind", [d, lit("", "P"), sl, unit], wind_base(d, sl, None, unit), f"{unit}{sl}")
            d = var("dir", DIRS + ["///", "VRB"])
            g = var("gust", N2)
            sl = var("slash", ("//", "///"))
            yield G("wind", [d, sl, "G", g, unit], wind_base(d, sl, g, unit), f"{unit}slashG")


def wind_base(d, sp, g, unit):
    f = (lambda s: float(s)) if unit == "KT" else (lambda s: float(s) / 0.51444444)
    n = lambda x: None if x is None else lift(lambda s: f(s) if s.isdigit() else None, x)
    return {"dir": num(d), "variable": lift(lambda x: x == "VRB", d), "speed": n(sp), "gust": n(g)}


def wind_variations(ctx="metar"):
    a = var("from", VDIRS)
    b = var("to", VDIRS)
    yield G("wind_variation", [a, "V", b], {"from": num(a), "to": num(b)}, "variation")


# ------------------------------------------------------------------ visibility

def vis_m(s):
    return None if "/" in s else 10000.0 if s == "9999" else float(s)


def card_deg(s):
    return None if s == "" else 360.0 if s == "N" else CARD.index(s) * 45.0


def vis_digits(kind, slash=True, dom=None):
    v = var("vis", dom or N4 + (["////"] if slash else []))
    c = var("card", [""] + CARD)
    b = {"vis": lift(vis_m, v), "dir": lift(card_deg, c)}
    if kind == "vis":
        b["cavok"] = False
    yield G(kind, [v, c], b, "digits")


def visibilities(ctx="metar"):
    yield from vis_digits("vis", slash=ctx != "taf")
    yield G("vis", "CAVOK", {"vis": 10000.0, "dir": None, "cavok": True}, "CAVOK")
    for unit, m in (("SM", 1852.0), ("KM", 1000.0)):
        base = lambda v: {"vis": v, "dir": None, "cavok": False}
        p = lit("", "M", "P")
        for n in (1, 2):
            i = var("int", D10 if n == 1 else N2)
            yield G("vis", [p, i, unit], base(lift(lambda s: int(s) * m, i)), f"{n}{unit}")
        a, b = var("numer", D10), var("denom", D10[1:])
        yield G("vis", [p, a, "/", b, unit], base(lift(lambda x, y: int(x) / int(y) * m, a, b)), f"frac{unit}")
        for n in (1, 2):
            i = var("int", D10 if n == 1 else N2)
            a, b = var("numer", D10), var("denom", D10[1:])
            v = lift(lambda z, x, y: (int(z) + int(x) / int(y)) * m, i, a, b)
            if unit == "SM":
                yield G("vis", [i, " ", a, "/", b, unit], base(v), f"{n} frac{unit}", needs_before=True)
    

EDGES = ["0000", "0799", "0800", "1599", "1600", "4999", "5000", "7999", "8000", "9998", "9999", "////"]


def plain_visibility(dom=N4):
    """Four digits, no direction."""
    v = var("vis", dom)
    return G("vis", [v], {"vis": lift(vis_m, v), "dir": None, "cavok": False}, "plain")


def min_visibilities(ctx="metar"):
    yield from vis_digits("minvis")


# ------------------------------------------------------------------ runway range

def runway_name(letters=True):
    return [var("rwy", RWYS), var("side", ["", "R", "L", "C"] if letters else [""])]


def rvr(ctx="metar"):
    for ft in ("", "FT"):
        for nl in (2, 3, 4):
            yield _rvr(ft, nl, None)
        for nl, nh in ((4, 4), (3, 4), (4, 3), (2, 2), (2, 4), (4, 2), (3, 3), (2, 3), (3, 2)):
            yield _rvr(ft, nl, nh)


def _rvr(ft, nl, nh):
    nums = {2: N2, 3: N3, 4: N4}
    n, s = runway_name()
    lim = var("lowlim", ("", "M", "P"))
    lo = var("low", nums[nl])
    tr = var("trend", ("", "N", "D", "U"))
    k = 0.3048
    val = (lambda x: float(x) * k) if ft else (lambda x: 10000.0 if x == "9999" else float(x))
    parts = ["R", n, s, "/", lim, lo]
    b = {"name": mk([n, s]), "lowlim": lim, "low": lift(val, lo), "highlim": "", "high": None, "trend": tr}
    if nh:
        hlim = var("highlim", ("", "M", "P"))
        hi = var("high", nums[nh])
        parts += ["V", hlim, hi]
        b.update(highlim=hlim, high=lift(val, hi))
    return G("rvr", parts + [ft, tr], b, f"{nl}V{nh}{ft}")


# ------------------------------------------------------------------ weather

INT = ["", "-", "+", "VC", "-VC", "+VC"]
DESC = ["", "MI", "PR", "BC", "DR", "BL", "SH", "TS", "FZ"]
PREC = ["DZ", "RA", "SN", "SG", "IC", "PL", "GR", "GS", "UP"]
OBSC = ["BR", "FG", "FU", "VA", "DU", "SA", "HZ", "PY"]
OTHER = ["PO", "SQ", "FC", "SS", "DS", "NSW"]


def weathers(ctx="metar"):
    for name, dom in (("prec", PREC), ("obsc", OBSC), ("other", OTHER)):
        i, d, x = var("int", INT), var("desc", DESC), var(name, dom)
        b = {"int": i, "desc": d, "prec": None, "obsc": None, "other": None}
        b[name] = x
        yield G("weather", [i, d, x], b, name)
    i, d = var("int", INT), var("desc", DESC[1:])
    yield G("weather", [i, d], {"int": i, "desc": d, "prec": None, "obsc": None, "other": None}, "desc")


def recents(ctx="metar"):
    d = var("desc", DESC)
    p = var("prec", [""] + PREC)
    o = var("obsc", [""] + [x for x in OBSC if x != "FU"])
    t = var("other", [""] + OTHER[:-1])
    yield G("recent", ["RE", d, p, o, t], {"desc": d, "prec": p, "obsc": o, "other": t}, "recent")


# ------------------------------------------------------------------ clouds

COVERS = ["CLR", "SKC", "NSC", "NCD", "FEW", "SCT", "BKN", "OVC", "0VC", "///", "VV"]


def clouds(ctx="metar"):
    c = var("cover", COVERS)
    h = var("height", N3 + ["///", ""])
    t = var("type", ["", "CB", "TCU", "///"])
    yield G("cloud", [c, h, t], {"cover": c, "feet": lift(lambda s: int(s) * 100.0 if s.isdigit() else None, h),
                                 "type": t}, "cloud")


# the heights next to the limits of the rules (200, 500, 1000, 3000 ft, 60, 150, 300, 900 m, 1500 and 5000 ft)
HEIGHTS = ["%03d" % i for i in (0, 1, 2, 4, 5, 9, 10, 15, 16, 29, 30, 49, 50, 999)]
FEWER = ["FEW", "SCT", "BKN", "OVC", "VV", "NSC", "///"]


def layer(shape, covers=COVERS, heights=N3, alone=True):
    """Cloud groups in pieces: h with height, n without, t with height and type, u with type but no height."""
    c = var("cover", covers)
    h = var("height", heights) if shape in "ht" else var("height", ["", "///"]) if alone else "///" if shape == "u" else ""
    t = var("type", ["CB", "TCU"]) if shape in "tu" else ""
    feet = lift(lambda s: int(s) * 100.0, h) if shape in "ht" else None
    return G("cloud", [c, h, t], {"cover": c, "feet": feet, "type": t}, shape)


# ------------------------------------------------------------------ temperature, pressure, sea

def signed(sign, t):
    return lift(lambda s, x: (-float(x) if s else float(x)) if x.isdigit() else None, sign, t)


def temperatures(ctx="metar"):
    a, b = var("tsign", ["", "M", "-"]), var("temp", N2 + ["//", "XX", "MM"])
    c, d = var("dsign", ["", "M", "-"]), var("dewpt", N2 + ["//", "XX", "MM"])
    yield G("temps", [a, b, "/", c, d], {"temp": signed(a, b), "dew": signed(c, d)}, "temps")


def pressures(ctx="metar"):
    for pre, suf in (("Q", ""), ("QNH", ""), ("", ""), ("A", ""), ("", "INS"), ("QNH", "INS"), ("Q", "INS"),
                     ("A", "INS")):
        x = var("press", N4 + ["////"])

        def f(s, pre=pre, suf=suf):
            if not s.isdigit():
                return None
            v = float(s)
            if pre == "A" or suf or (not pre and v > 2500):
                return v / 100 / 0.02953
            return v
        yield G("pressure", [pre, x, suf], {"hpa": lift(f, x)}, pre + "nnnn" + suf)


def seas(ctx="metar"):
    s, t = var("sign", ["", "M"]), var("temp", N2)
    st = var("state", D10)
    yield G("sea", ["W", s, t, "/S", st], {"temp": signed(s, t), "state": st, "height": None}, "state")
    s, t = var("sign", ["", "M"]), var("temp", N2)
    h = var("height", N3)
    yield G("sea", ["W", s, t, "/H", h], {"temp": signed(s, t), "state": None,
                                          "height": lift(lambda x: int(x) / 10, h)}, "height")


# ------------------------------------------------------------------ runway state, windshear

def runway_states(ctx="metar"):
    none = {"deposit": None, "cont": None, "depth": None, "fric": None, "snoclo": False, "clrd": False}
    n, s = runway_name()
    name = mk([n, s])
    d, c = var("deposit", D10 + "/"), var("cont", D10 + "/")
    e, f = var("depth", N2 + ["//"]), var("fric", N2 + ["//"])
    yield G("rwystate", ["R", n, s, "/", d, c, e, f],
            {**none, "name": name, "deposit": d, "cont": c, "depth": e, "fric": f}, "state")
    n, s = runway_name()
    yield G("rwystate", ["R", n, s, "/SNOCLO"], {**none, "name": mk([n, s]), "snoclo": True}, "SNOCLO")
    n, s = runway_name()
    yield G("rwystate", ["R", n, s, "/CLRD//"], {**none, "name": mk([n, s]), "clrd": True}, "CLRD")
    yield G("rwystate", "R/SNOCLO", {**none, "name": None, "snoclo": True}, "R/SNOCLO")


def windshears(ctx="metar"):
    r = var("form", ["R", "RWY"])
    n, s = runway_name()
    yield G("windshear", ["WS ", r, n, s], {"all": False, "name": mk([n, s])}, "runway")
    yield G("windshear", "WS ALL RWY", {"all": True, "name": None}, "all")


# ------------------------------------------------------------------ TAF temperatures are in dates.py

KINDS = {
    "wind": winds, "wind_variation": wind_variations, "vis": visibilities, "minvis": min_visibilities, "rvr": rvr,
    "weather": weathers, "cloud": clouds, "temps": temperatures, "pressure": pressures, "recent": recents,
    "windshear": windshears, "sea": seas, "rwystate": runway_states,
}
