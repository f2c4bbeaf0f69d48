"""Symbolic groups with dates and times, and the header of the reports."""
import ast
import calendar
import datetime as dt
import functools
import os

from pyvc.core import lift, var
from pyvc.strings import mk

from .grammar import G, N2, signed
from .model import When

HOURS = N2[:25]
HOURS23 = N2[:24]
MINUTES = N2[:60]
DAYS = N2[1:32]


def month_days(year, month):
    return N2[1:calendar.monthrange(year, month)[1] + 1]


def time_group(year, month, days=None, hours=HOURS, minutes=MINUTES):
    """ddhhmmZ with every day of that month."""
    d = var("day", days or month_days(year, month))
    h = var("hour", hours)
    m = var("min", minutes)
    date = lift(lambda x: dt.date(year, month, int(x)), d)
    date = lift(lambda x, z: x + dt.timedelta(days=1) if z == "24" else x, date, h)
    t = lift(lambda z, y: int(z) % 24 * 60 + int(y), h, m)
    return G("time", [d, h, m, "Z"], {"time": When(date, t)}, "time")


def the_time(text, year, month):
    d = dt.date(year, month, int(text[:2]))
    if text[2:4] == "24":
        d += dt.timedelta(days=1)
    return G("time", text, {"time": When(d, int(text[2:4]) % 24 * 60 + int(text[4:6]))}, "time")


def i_(x):
    return lift(int, x)


def valid_group(days=DAYS, kind="valid", fmhours=HOURS23, tlhours=HOURS):
    a, b = var("fmday", days), var("fmhour", fmhours)
    c, d = var("tlday", days), var("tlhour", tlhours)
    return G(kind, [a, b, "/", c, d], {"fmday": i_(a), "fmhour": i_(b), "tlday": i_(c), "tlhour": i_(d)}, kind)


def the_valid(text, kind="valid"):
    return G(kind, text, {"fmday": int(text[:2]), "fmhour": int(text[2:4]), "tlday": int(text[5:7]),
                          "tlhour": int(text[7:9])}, kind)


def ttemp_groups(days=DAYS, hours=HOURS23):
    for which in "XN":
        s, t = var("sign", ["", "M"]), var("temp", N2)
        d, h = var("day", days), var("hour", hours)
        yield G("ttemp", ["T", which, s, t, "/", d, h, "Z"],
                {"temp": signed(s, t), "day": i_(d), "hour": i_(h)}, "T" + which, max=which == "X")


def tper_group(prefix, hours=HOURS, minutes=MINUTES):
    h, m = var("hour", hours), var("min", minutes)
    return G("tper", [prefix, h, m], {"which": {"FM": "from", "TL": "until", "AT": "at"}[prefix], "hour": i_(h),
                                      "minute": i_(m)}, prefix)


def tind(text):
    return G("tind", text, {}, text)


def cind(text):
    return G("cind", text, {}, text)


def fm_group(days=DAYS, hours=HOURS23, minutes=MINUTES):
    d, h, m = var("day", days), var("hour", hours), var("min", minutes)
    return G("cind", ["FM", d, h, m], {"fm": {"day": i_(d), "hour": i_(h), "minute": i_(m)}}, "FM")


def the_fm(text):
    return G("cind", text, {"fm": {"day": int(text[2:4]), "hour": int(text[4:6]), "minute": int(text[6:8])}}, "FM")


@functools.lru_cache(None)
def database(root=None):
    """Stations and countries read from the data files of the repository (literals only)."""
    root = root or os.environ.get("VERIF_REPO", "/repo")
    out = {}
    for name, const in (("stations", "STATIONS"), ("countries", "COUNTRIES")):
        with open(f"{root}/aeromet_py/database/{name}.py", encoding="utf-8") as f:
            tree = ast.parse(f.read())
        for node in ast.walk(tree):
            t = node.target if isinstance(node, ast.AnnAssign) else \
                node.targets[0] if isinstance(node, ast.Assign) else None
            if isinstance(t, ast.Name) and t.id == const:
                out[name] = ast.literal_eval(node.value)
    first = {}
    for s in out["stations"]:
        first.setdefault(s[1], s)
    return first, out["countries"]


def station_base(code, row, countries):
    keys = ("name", "icao", "iata", "synop", "latitude", "longitude", "elevation")
    if row is None:
        return {"code": code, **{k: None for k in keys}, "country": None}
    return {"code": code, **dict(zip(keys, row)), "country": countries.get(row[7])}


def station(code="PANC"):
    first, countries = database()
    return G("station", code, station_base(code, first.get(code), countries), "station")


def rtype(text):
    return G("type", text, {}, "type")


def missing():
    return G("missing", "NIL", {}, "NIL")


def cancelled():
    return G("cancelled", "CNL", {}, "CNL")
