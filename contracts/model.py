"""What a report must show: the specification of every kind of group.

Independent of the code under verification.  For each kind of group there is a
`base` (the decoded values that the property statements talk about) and a model
that gives, from the base, every attribute, the dictionary and the readable
text.  All is computed through `lift`, so the same model is used for symbolic
groups (proof) and for concrete ones (replay and bounded checks).
"""
import datetime as dt
import math

from pyvc import core, strings
from pyvc.core import lift
from pyvc.strings import mk

# ---------------------------------------------------------------- tables

COMPASS = ["N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW"]

TYPES = {"METAR": "Meteorological Aerodrome Report", "SPECI": "Special Aerodrome Report",
         "TAF": "Terminal Aerodrome Forecast"}
MODIFIERS = {"COR": "Correction", "CORR": "Correction", "AMD": "Amendment", "NIL": "Missing report",
             "AUTO": "Automatic report", "TEST": "Testing report", "FINO": "Missing report"}
INTENSITY = {"-": "light", "+": "heavy", "-VC": "nearby light", "+VC": "nearby heavy", "VC": "nearby"}
DESCRIPTION = {"MI": "shallow", "PR": "partial", "BC": "patches of", "DR": "low drifting", "BL": "blowing",
               "SH": "showers", "TS": "thunderstorm", "FZ": "freezing"}
PRECIPITATION = {"DZ": "drizzle", "RA": "rain", "SN": "snow", "SG": "snow grains", "IC": "ice crystals",
                 "PL": "ice pellets", "GR": "hail", "GS": "snow pellets", "UP": "unknown precipitation"}
OBSCURATION = {"BR": "mist", "FG": "fog", "FU": "smoke", "VA": "volcanic ash", "DU": "dust", "SA": "sand",
               "HZ": "haze", "PY": "spray"}
OTHER = {"PO": "sand whirls", "SQ": "squalls", "FC": "funnel cloud", "SS": "sandstorm", "DS": "dust storm",
         "NSW": "nil significant weather"}
COVER = {"SKC": "clear", "CLR": "clear", "NSC": "clear", "NCD": "clear", "FEW": "a few", "SCT": "scattered",
         "BKN": "broken", "OVC": "overcast", "0VC": "overcast", "///": "undefined", "VV": "indefinite ceiling"}
OKTAS = {"SKC": "undefined", "CLR": "undefined", "NSC": "not specified", "NCD": "not specified", "FEW": "1-2",
         "SCT": "3-4", "BKN": "5-7", "OVC": "8", "0VC": "8", "///": "undefined", "VV": "undefined"}
CLOUD_TYPE = {"CB": "cumulonimbus", "TCU": "towering cumulus"}
SIDE = {"R": " right", "L": " left", "C": " center"}
RVR_LIMIT = {"M": "below of", "P": "above of"}
RVR_TREND = {"U": "increasing", "D": "decreasing", "N": "no change"}
SEA = {"0": "calm (glassy)", "1": "calm (rippled)", "2": "smooth (wavelets)", "3": "slight", "4": "moderate",
       "5": "rough", "6": "very rough", "7": "high", "8": "very high", "9": "phenomenal"}
DEPOSITS = {"0": "clear and dry", "1": "damp", "2": "wet and water patches",
            "3": "rime and frost covered (depth normally less than 1 mm)", "4": "dry snow", "5": "wet snow",
            "6": "slush", "7": "ice", "8": "compacted or rolled snow", "9": "frozen ruts or ridges",
            "/": "type of deposit not reported (e.g. due to runway clearance in progress)"}
CONTAMINATION = {"0": None, "1": "less than 10% of runway", "2": "11%-25% of runway", "3": "reserved",
                 "4": "reserved", "5": "26%-50% of runway", "6": "reserved", "7": "reserved", "8": "reserved",
                 "9": "51%-100% of runway", "/": "not reported"}
DEPTH = {"00": "less than 1 mm", "91": "reserved", "92": "10 cm", "93": "15 cm", "94": "20 cm", "95": "25 cm",
         "96": "30 cm", "97": "35 cm", "98": "40 cm or more",
         "99": "runway(s) non-operational due to snow, slush, ice, large drifts or runway clearance, "
               "but depth not reported",
         "//": "depth of deposit operationally not significant or not measurable"}
FRICTION = {"91": "breaking action poor", "92": "breaking action medium/poor", "93": "breaking action medium",
            "94": "breaking action medium/good", "95": "breaking action good", "96": "reserved",
            "97": "reserved", "98": "reserved", "99": "breaking action unreliable",
            "//": "breaking conditions not reported and/or runway not operational"}
CHANGES = {"NOSIG": "no significant changes", "BECMG": "becoming", "TEMPO": "temporary",
           "PROB30": "probability 30%", "PROB40": "probability 40%",
           "PROB30 TEMPO": "probability 30% temporary", "PROB40 TEMPO": "probability 40% temporary"}

# ---------------------------------------------------------------- values

EXACT, CONV = "exact", "conv"


class Num:
    """An expected number: exact (to 1e-9, rounding only) or a unit conversion (to 1e-5)."""
    __slots__ = ("v", "tol")

    def __init__(self, v, tol=EXACT):
        self.v = v
        self.tol = tol

    def __pv_assign__(self, asg):
        return Num(core.assign(self.v, asg), self.tol)

    def __pv_vars__(self, out):
        core.all_vars(self.v, out)


class When:
    """An expected datetime: date and minute of the day."""
    __slots__ = ("d", "t")

    def __init__(self, d, t):
        self.d = d
        self.t = t

    def __pv_assign__(self, asg):
        return When(core.assign(self.d, asg), core.assign(self.t, asg))

    def __pv_vars__(self, out):
        core.all_vars(self.d, out)
        core.all_vars(self.t, out)

    def minutes(self, n):
        """This instant plus n minutes (n may be symbolic)."""
        tot = lift(lambda a, b: a + b, self.t, n)
        return When(lift(lambda d, m: d + dt.timedelta(days=m // 1440), self.d, tot),
                    lift(lambda m: m % 1440, tot))

    def text(self):
        return mk((lift(lambda d: d.isoformat(), self.d), " ",
                   lift(lambda m: "%02d:%02d:00" % (m // 60, m % 60), self.t)))


def when(t):
    return When(t.date(), t.hour * 60 + t.minute)


def conv(x, f):
    """A unit conversion of a value that may be missing."""
    return Num(lift(lambda v: None if v is None else f(v), x), CONV)


class OneOf:
    """Several acceptable texts: numbers halfway between two texts may be rounded either way."""

    def __init__(self, alts):
        self.alts = alts

    def __pv_assign__(self, asg):
        return OneOf([core.assign(a, asg) for a in self.alts])

    def __pv_vars__(self, out):
        core.all_vars(self.alts, out)

    def __repr__(self):
        return " or ".join(map(repr, self.alts))


class _Round:
    way = ()
    n = 0


def show(v, unit="", n=1):
    """Text of a number (of every row of a symbolic number), rounded up or down when halfway."""
    e = 1e-9
    up = lambda x: f"{x * (1 + e) if x > 0 else x * (1 - e):.{n}f}{unit}"
    dn = lambda x: f"{x * (1 - e) if x > 0 else x * (1 + e):.{n}f}{unit}"
    f = lambda g: lift(lambda x: "" if x is None else g(x), v)
    tie = lift(lambda x: x is not None and up(x) != dn(x), v)
    if tie is False:
        return f(up)
    k = _Round.n
    _Round.n += 1
    return f(up if k >= len(_Round.way) or _Round.way[k] else dn)


def alternatives(t, b):
    """Every acceptable text t(b)."""
    _Round.way, _Round.n = (), 0
    first = t(b)
    k = min(_Round.n, 3)
    if not k:
        return first
    out = [first]
    for i in range(1, 2 ** k):
        _Round.way, _Round.n = tuple(not i >> j & 1 for j in range(k)), 0
        out.append(t(b))
    _Round.way = ()
    return OneOf(out)


def f1(x, unit=""):
    """Text of a number with its unit, empty when missing."""
    return show(x, unit)


def opt(cond, x, text, no=""):
    """text when cond of the value x, else no."""
    return lift(lambda v: text if cond(v) else no, x)


def compass(x):
    return lift(lambda v: None if v is None else COMPASS[int(((v + 11.25) % 360) // 22.5)], x)


def runway(name):
    """Readable name of a runway."""
    def f(n):
        if n is None:
            return None
        if len(n) == 3:
            return n[:2] + SIDE[n[2]]
        return {"88": "all runways", "99": "repeated"}.get(n, n)
    return lift(f, name)


def distance(prefix, m):
    return {prefix + "in_meters": Num(m), prefix + "in_kilometers": conv(m, lambda v: v / 1000),
            prefix + "in_sea_miles": conv(m, lambda v: v / 1852), prefix + "in_feet": conv(m, lambda v: v / 0.3048)}


def speed(prefix, kt):
    return {prefix + "in_knot": Num(kt), prefix + "in_mps": conv(kt, lambda v: v * 1852 / 3600),
            prefix + "in_kph": conv(kt, lambda v: v * 1.852), prefix + "in_miph": conv(kt, lambda v: v * 1852 / 1609.344)}


def direction(prefix, deg):
    return {prefix + "in_degrees": Num(deg), prefix + "in_radians": conv(deg, math.radians),
            prefix + "in_gradians": conv(deg, lambda v: v * 400 / 360)}


def temperature(prefix, c):
    return {prefix + "in_celsius": Num(c), prefix + "in_kelvin": conv(c, lambda v: v + 273.15),
            prefix + "in_fahrenheit": conv(c, lambda v: v * 1.8 + 32),
            prefix + "in_rankine": conv(c, lambda v: (v + 273.15) * 1.8)}


def join_(*xs):
    """Non-empty texts separated by spaces."""
    return lift(lambda *a: " ".join(x for x in a if x), *xs)


# ---------------------------------------------------------------- kinds
#
# kind -> (attributes from base, readable text from base, as_dict from the attributes read)

def m_type(b):
    return {"code": b["code"], "type_": lift(lambda c: TYPES[c], b["code"])}


def t_type(b):
    return lift(lambda c: f"{TYPES[c]} ({c})", b["code"])


def m_station(b):
    return dict(b)


def t_station(b):
    return mk(("Name: ", s_(b["name"]), " | Coordinates: ", s_(b["latitude"]), " ", s_(b["longitude"]),
               " | Elevation: ", s_(b["elevation"]), " m MSL | Country: ", s_(b["country"])))


def s_(x):
    return lift(str, x)


def m_time(b):
    w = b["time"]
    return {"code": b["code"], "time": w, "year": lift(lambda d: d.year, w.d), "month": lift(lambda d: d.month, w.d),
            "day": lift(lambda d: d.day, w.d), "hour": lift(lambda t: t // 60, w.t),
            "minute": lift(lambda t: t % 60, w.t)}


def m_modifier(b):
    return {"code": b["code"], "description": lift(lambda c: MODIFIERS.get(c), b["code"])}


def t_modifier(b):
    return lift(lambda c: MODIFIERS[c].lower() if c else "", b["code"])


def m_wind(b):
    return {"code": b["code"], "cardinal_direction": compass(b["dir"]), "variable": b["variable"],
            **direction("direction_", b["dir"]), **speed("speed_", b["speed"]), **speed("gust_", b["gust"])}


def t_wind(b):
    d = lift(lambda v, c, var: "variable wind" if var else "" if v is None else f"{c} ({v:.1f}°)",
             b["dir"], compass(b["dir"]), b["variable"])
    sep = lift(lambda x, v: " " if x and v is not None else "", d, b["speed"])
    return mk((d, sep, f1(b["speed"], " kt"), opt(lambda v: v is not None, b["gust"], " gust of "),
               f1(b["gust"], " kt")))


def m_variation(b):
    return {"code": b["code"], "from_cardinal_direction": compass(b["from"]),
            **direction("from_", b["from"]), "to_cardinal_direction": compass(b["to"]), **direction("to_", b["to"])}


def t_variation(b):
    if b["code"] is None:
        return ""
    return mk(("from ", compass(b["from"]), " (", f1(b["from"], "°"), ") to ", compass(b["to"]), " (",
               f1(b["to"], "°"), ")"))


def m_minvis(b):
    return {"code": b["code"], **distance("", b["vis"]), "cardinal_direction": compass(b["dir"]),
            **direction("direction_", b["dir"])}


def m_vis(b):
    return {**m_minvis(b), "cavok": b["cavok"]}


def t_vis(b):
    if b.get("cavok") is True:
        return "Ceiling and Visibility OK"
    v = f1(lift(lambda x: None if x is None else x / 1000, b["vis"]), " km")
    d = lift(lambda x, c: "" if x is None else f" to {c} ({x:.1f}°)", b["dir"], compass(b["dir"]))
    return mk((v, d))


def m_rvr(b):
    lo, hi = b["low"], b["high"]

    def rng(v, lim):
        return mk((lift(lambda l, x: "" if x is None or not l else RVR_LIMIT[l] + " ", lim, v), f1(v, " m")))
    return {"code": b["code"], "name": runway(b["name"]), "low_range": rng(lo, b["lowlim"]),
            **distance("low_", lo), "high_range": rng(hi, b["highlim"]), **distance("high_", hi),
            "trend": lift(lambda t: RVR_TREND.get(t), b["trend"])}


def t_rvr(b):
    a = m_rvr(b)
    return mk(("runway ", a["name"], " ", a["low_range"],
               opt(lambda v: v is not None, b["high"], " varying to "), a["high_range"],
               lift(lambda t: ", " + RVR_TREND[t] if t else "", b["trend"])))


def m_weather(b):
    return {"code": b["code"], "intensity": lift(INTENSITY.get, b["int"]),
            "description": lift(DESCRIPTION.get, b["desc"]), "precipitation": lift(PRECIPITATION.get, b["prec"]),
            "obscuration": lift(OBSCURATION.get, b["obsc"]), "other": lift(OTHER.get, b["other"])}


def t_weather(b):
    a = m_weather(b)
    return join_(a["intensity"], a["description"], a["precipitation"], a["obscuration"], a["other"])


def m_recent(b):
    return {"code": b["code"], "description": lift(DESCRIPTION.get, b["desc"]),
            "precipitation": lift(PRECIPITATION.get, b["prec"]),
            "obscuration": lift(OBSCURATION.get, b["obsc"]), "other": lift(OTHER.get, b["other"])}


def t_recent(b):
    a = m_recent(b)
    return join_(a["description"], a["precipitation"], a["obscuration"], a["other"])


def m_cloud(b):
    h = lift(lambda f: None if f is None else f * 0.3048, b["feet"])
    return {"code": b["code"], "cover": lift(COVER.get, b["cover"]), "oktas": lift(OKTAS.get, b["cover"]),
            "height_in_meters": Num(h), "height_in_kilometers": conv(h, lambda v: v / 1000),
            "height_in_sea_miles": conv(h, lambda v: v / 1852),
            "height_in_feet": Num(b["feet"]), "cloud_type": lift(CLOUD_TYPE.get, b["type"])}


def t_cloud(b):
    def f(cover, feet, ty):
        c = COVER[cover]
        if feet is None:
            return c if c in ("clear", "undefined", "indefinite ceiling") else c + " at undefined height"
        return f"{c} at {feet:.1f} feet" + (f" of {CLOUD_TYPE[ty]}" if ty in CLOUD_TYPE else "")
    return lift(f, b["cover"], b["feet"], b["type"])


def m_temps(b):
    return {"code": b["code"], **temperature("temperature_", b["temp"]), **temperature("dewpoint_", b["dew"])}


def t_temps(b):
    t, d = b["temp"], b["dew"]
    none = lift(lambda x, y: x is None and y is None, t, d)
    return mk((lift(lambda v, z: "" if z else "no temperature" if v is None else f"temperature: {v:.1f}°C", t, none),
               lift(lambda z: "" if z else " | ", none),
               lift(lambda v, z: "" if z else "no dewpoint" if v is None else f"dewpoint: {v:.1f}°C", d, none)))


def m_pressure(b):
    p = b["hpa"]
    return {"code": b["code"], "in_hPa": Num(p), "in_inHg": conv(p, lambda v: v * 0.02953),
            "in_mbar": conv(p, lambda v: v), "in_bar": conv(p, lambda v: v / 1000),
            "in_atm": conv(p, lambda v: v / 1013.25)}


def t_pressure(b):
    return f1(b["hpa"], " hPa")


def m_windshear(b):
    return {"code": b["code"], "all_": b["all"],
            "name": lift(lambda n: None if n is None else n if len(n) == 2 else n[:2] + SIDE[n[2]], b["name"])}


def t_windshear(b):
    return lift(lambda n, a: n if n else "all" if a else "", m_windshear(b)["name"], b["all"])


def m_sea(b):
    h = b["height"]
    return {"code": b["code"], "state": lift(SEA.get, b["state"]), **temperature("temperature_", b["temp"]),
            "height_in_meters": Num(h), "height_in_centimeters": conv(h, lambda v: v * 100),
            "height_in_decimeters": conv(h, lambda v: v * 10), "height_in_feet": conv(h, lambda v: v / 0.3048),
            "height_in_inches": conv(h, lambda v: v / 0.0254)}


def t_sea(b):
    if b["code"] is None:
        return ""
    return mk((lift(lambda v: "no temperature" if v is None else f"temperature {v:.1f}°C", b["temp"]), ", ",
               lift(lambda v: "no significant wave height" if v is None else f"significant wave height {v:.1f} m",
                    b["height"]), ", ", lift(lambda s: SEA.get(s, "no sea state"), b["state"])))


CEASED = "contaminations have ceased to exists"


def m_rwystate(b):
    def depth(c):
        if c is None:
            return None
        return DEPTH[c] if c in DEPTH else f"{int(c)} mm"

    def fric(c):
        if c is None:
            return None
        return FRICTION[c] if c in FRICTION else "0." + c

    def clrd(c, n):
        if not c:
            return None
        return CEASED + {"88": " on all runways", "99": " on previous runway"}.get(
            n, " on runway " + str(n if n is None or len(n) == 2 else n[:2] + SIDE[n[2]]))
    return {"code": b["code"], "name": runway(b["name"]), "deposits": lift(DEPOSITS.get, b["deposit"]),
            "contamination": lift(CONTAMINATION.get, b["cont"]), "deposits_depth": lift(depth, b["depth"]),
            "surface_friction": lift(fric, b["fric"]), "snoclo": b["snoclo"],
            "clrd": lift(clrd, b["clrd"], b["name"])}


def t_rwystate(b):
    if b["code"] is None:
        return ""
    if b["snoclo"] is True:
        return "aerodrome is closed due to extreme deposit of snow"
    a = m_rwystate(b)
    if b["clrd"] is True:
        return a["clrd"]

    def dep(d, dd, depth, dd2):
        if d == "/":
            return f"{dd2} and {dd}" if depth in ("99", "//") else f"depth of {dd2} but {dd}"
        return f"{dd2} of {dd}" if depth in ("99", "//") else f"deposits of {dd2} of {dd}"

    def fr(c, t):
        return t if c == "//" or int(c) > 90 else f"estimated surface friction {t}"
    return mk((s_(a["name"]), ", ", lift(dep, b["deposit"], a["deposits"], b["depth"], a["deposits_depth"]),
               ", contamination ", s_(a["contamination"]), ", ", lift(fr, b["fric"], a["surface_friction"])))


def m_tind(b):
    """Trend indicator of METAR."""
    return {"code": b["code"], "translation": lift(lambda c: CHANGES.get(c), b["ind"]),
            "forecast_period[0].time": b["init"], "forecast_period[1].time": b["end"],
            "period_from.time": b["from"], "period_until.time": b["until"],
            "period_at": None if b["at"] is None else SOME,
            **({} if b["at"] is None else {"period_at.time": b["at"]})}


class _Some:
    def __repr__(self):
        return "<not None>"

    def __deepcopy__(self, memo):
        return self


SOME = _Some()


def t_tind(b):
    if b["ind"] is None:
        return ""
    tr = lift(lambda c: CHANGES[c], b["ind"])
    if b["at"] is not None:
        return mk((tr, " at ", b["at"].text()))
    return mk((tr, " from ", b["from"].text(), " until ", b["until"].text()))


def valid_attrs(p, b):
    return {p + "code": b["code"], p + "period_from.time": b["from"], p + "period_until.time": b["until"],
            p + "duration": Dur(b["from"], b["until"])}


class Dur:
    """Expected timedelta: end minus start."""

    def __init__(self, a, b):
        self.a = a
        self.b = b

    def __pv_assign__(self, asg):
        return Dur(core.assign(self.a, asg), core.assign(self.b, asg))

    def __pv_vars__(self, out):
        core.all_vars(self.a, out)
        core.all_vars(self.b, out)

    def parts(self):
        return (lift(lambda x, y: (y - x).days, self.a.d, self.b.d), lift(lambda x, y: y - x, self.a.t, self.b.t))


def m_valid(b):
    return valid_attrs("", b)


def t_valid(b):
    return mk(("from ", b["from"].text(), " until ", b["until"].text()))


def m_cind(b):
    """Change indicator of TAF."""
    v = b["valid"]
    d = {"code": b["code"], **valid_attrs("valid.", v)}
    per = t_valid(v)
    if b["ind"] is None:
        d["translation"] = None
    elif b["fm"]:
        d["translation"] = per
    else:
        tr = lift(lambda c: CHANGES[c], b["ind"])
        d["translation"] = mk((tr, " ", per)) if b["own"] else tr
    return d


def t_cind(b):
    return m_cind(b)["translation"] or ""


def m_missing(b):
    return {"code": b["code"], "is_missing": b["code"] is not None,
            "description": "Missing report" if b["code"] is not None else None}


def m_cancelled(b):
    return {"code": b["code"], "is_cancelled": b["code"] is not None}


def m_ttemp(b):
    return {**temperature("", b["temp"]), "time.time": b["time"]}


def t_ttemp(b):
    return mk((f1(b["temp"], "°C"), " at ", b["time"].text()))


from .plain_model import D  # noqa: E402,F401

MODEL = {
    "type": (m_type, t_type), "station": (m_station, t_station), "time": (m_time, lambda b: b["time"].text()),
    "modifier": (m_modifier, t_modifier), "wind": (m_wind, t_wind), "wind_variation": (m_variation, t_variation),
    "vis": (m_vis, t_vis), "minvis": (m_minvis, t_vis), "rvr": (m_rvr, t_rvr), "weather": (m_weather, t_weather),
    "cloud": (m_cloud, t_cloud), "temps": (m_temps, t_temps), "pressure": (m_pressure, t_pressure),
    "recent": (m_recent, t_recent), "windshear": (m_windshear, t_windshear), "sea": (m_sea, t_sea),
    "rwystate": (m_rwystate, t_rwystate), "tind": (m_tind, t_tind), "valid": (m_valid, t_valid),
    "cind": (m_cind, t_cind), "missing": (m_missing, lambda b: "missing report" if b["code"] is not None else ""),
    "cancelled": (m_cancelled, lambda b: "cancelled" if b["code"] is not None else ""),
    "ttemp": (m_ttemp, t_ttemp),
}

ABSENT = {
    "modifier": {"code": None},
    "wind": {"code": None, "dir": None, "variable": False, "speed": None, "gust": None},
    "wind_variation": {"code": None, "from": None, "to": None},
    "vis": {"code": None, "vis": None, "dir": None, "cavok": False},
    "minvis": {"code": None, "vis": None, "dir": None},
    "temps": {"code": None, "temp": None, "dew": None},
    "pressure": {"code": None, "hpa": None},
    "recent": {"code": None, "desc": None, "prec": None, "obsc": None, "other": None},
    "sea": {"code": None, "state": None, "temp": None, "height": None},
    "rwystate": {"code": None, "name": None, "deposit": None, "cont": None, "depth": None, "fric": None,
                 "snoclo": False, "clrd": False},
    "station": {k: None for k in ("name", "icao", "iata", "synop", "latitude", "longitude", "elevation", "country",
                                  "code")},
    "missing": {"code": None},
    "cancelled": {"code": None},
}
