"""Reports made of groups and everything that they must show."""
import datetime as dt

from pyvc import core
from pyvc.core import lift
from pyvc.strings import SymStr, mk

from . import model
from .grammar import G
from .model import ABSENT, MODEL, When, when

METAR_ORDER = (["type", "station", "time", "modifier", "wind", "wind_variation", "vis", "minvis"] + ["rvr"] * 3
               + ["weather"] * 3 + ["cloud"] * 4 + ["temps", "pressure", "pressure", "recent"] + ["windshear"] * 3
               + ["sea", "rwystate"])
TREND_ORDER = ["tind", "tper", "tper", "wind", "vis"] + ["weather"] * 3 + ["cloud"] * 4
TAF_ORDER = (["type", "modifier", "station", "time", "missing", "valid", "cancelled", "wind", "vis"]
             + ["weather"] * 3 + ["cloud"] * 4 + ["ttemp"] * 4)
CHANGE_ORDER = ["cind", "cper", "wind", "vis"] + ["weather"] * 3 + ["cloud"] * 4

LOC = {"type": "type_", "station": "station", "time": "time", "modifier": "modifier", "wind": "wind",
       "wind_variation": "wind_variation", "vis": "prevailing_visibility", "minvis": "minimum_visibility",
       "temps": "temperatures", "pressure": "pressure", "recent": "recent_weather", "sea": "sea_state",
       "rwystate": "runway_state", "missing": "missing", "valid": "valid", "cancelled": "cancelled"}
LISTS = {"rvr": ("runway_ranges", 3), "weather": ("weathers", 3), "cloud": ("clouds", 4),
         "windshear": ("windshears", 3)}
METAR_SINGLE = ["modifier", "wind", "wind_variation", "vis", "minvis", "temps", "pressure", "recent", "sea",
                "rwystate"]
METAR_LISTS = ["rvr", "weather", "cloud", "windshear"]
TAF_SINGLE = ["modifier", "missing", "cancelled", "wind", "vis"]
TAF_LISTS = ["weather", "cloud"]
SECTION_SINGLE = ["wind", "vis"]
SECTION_LISTS = ["weather", "cloud"]


def junk(text):
    return G("junk", text, {}, "junk")


def decode(groups, order):
    """Greedy reading of a section: (decoded [(kind, G)], unparsed [G])."""
    i = 0
    out, left = [], []
    for g in groups:
        kinds = g.extra.get("kinds") or (g.kind,)
        for j in range(i, len(order)):
            if order[j] in kinds:
                out.append((order[j], g))
                i = j + 1
                break
        else:
            left.append(g)
    return out, left


def as_kind(kind, g):
    if kind == g.kind:
        return g.base
    alt = g.extra.get("alts", {})
    if kind in alt:
        return {"code": g.text, **alt[kind]}
    b = dict(g.base)
    if kind == "minvis":
        b.pop("cavok", None)
    if kind == "vis":
        b["cavok"] = False
    return b


class Obs:
    __slots__ = ("obj", "attr", "exp", "kind", "where")

    def __init__(self, obj, attr, exp, kind, where):
        self.obj = obj      # path of the object in the report ("" is the report)
        self.attr = attr    # attribute path of the object
        self.exp = exp
        self.kind = kind
        self.where = where  # body, trend, change

    @property
    def path(self):
        return (self.obj + "." if self.obj and not self.attr.startswith("[") else self.obj) + self.attr

    def __repr__(self):
        return f"Obs({self.path})"


class Late:
    """An expected value worked out on each path."""

    def __init__(self, f, *args):
        self.f = f
        self.args = args

    def __call__(self):
        return self.f(*self.args)


class Rep:
    """A report to build: groups of the body, of each trend or change, and remark."""

    def __init__(self, what, body, sections=(), remark=None, year=2022, month=3, clock=None):
        self.clock = clock        # None or (date, minute of the day) in UTC
        self.what = what
        self.body = body
        self.sections = [list(s) for s in sections]
        self.remark = remark
        self.year = year
        self.month = month

    def text(self):
        gs = list(self.body)
        for s in self.sections:
            gs += s
        parts = []
        for i, g in enumerate(gs):
            if i:
                parts.append(" ")
            parts.append(g.text)
        if self.remark:
            parts.append(" " + self.remark)
        return mk(parts)

    def section_text(self, gs):
        parts = []
        for i, g in enumerate(gs):
            if i:
                parts.append(" ")
            parts.append(g.text)
        return mk(parts) if parts else ""

    # -------------------------------------------------- expectations
    def expected(self, texts=True):
        out = []
        body, left = decode(self.body, METAR_ORDER if self.what == "metar" else TAF_ORDER)
        self.decoded = body
        self.issue = first_of_month(self.year, self.month, self.clock)
        groups = {}
        lists = {}
        for kind, g in body:
            b = as_kind(kind, g)
            if kind == "time":
                self.issue = b["time"]
            elif kind == "valid":
                b = period(b, self.issue)
            elif kind == "ttemp":
                b = {**b, "time": at(lift(first_day, self.issue.d, b["day"]), b["hour"])}
            if kind in LISTS:
                lists.setdefault(kind, []).append(b)
            elif kind == "ttemp":
                lists.setdefault("max" if g.extra["max"] else "min", []).append(b)
            else:
                groups[kind] = b
        metar = self.what == "metar"
        if "type" not in groups:
            groups["type"] = {"code": "METAR" if metar else "TAF"}
        if "station" not in groups:
            groups["station"] = ABSENT["station"]
        if "time" not in groups:
            groups["time"] = {"code": None, "time": self.issue}
        if not metar and "valid" not in groups:
            groups["valid"] = default_valid(self.issue)
        self.groups = groups
        self.lists = lists
        for kind in ["type", "station", "time"] + (METAR_SINGLE if metar else TAF_SINGLE + ["valid"]):
            b = groups.get(kind) or ABSENT[kind]
            self._group(out, LOC[kind], kind, b, "body", texts)
        for kind in METAR_LISTS if metar else TAF_LISTS:
            self._list(out, "", kind, lists.get(kind, []), "body", texts)
        if not metar:
            for n in ("max", "min"):
                bs = lists.get(n, [])
                p = n + "_temperatures"
                out.append(Obs(p, "__len__", len(bs), "list", "body"))
                out.append(Obs(p, "codes", [b["code"] for b in bs], "list", "body"))
                for i, b in enumerate(bs):
                    self._group(out, f"{p}[{i}]", "ttemp", b, "body", texts)
        self._derived(out, "", groups.get("vis", ABSENT["vis"]), lists, "body")
        # trends or changes
        unp = [g.text for g in left]
        secs = []
        seclist = "weather_trends" if metar else "changes_forecasted"
        changes = []
        for i, s in enumerate(self.sections):
            dec, left = decode(s, TREND_ORDER if metar else CHANGE_ORDER)
            unp += [g.text for g in left]
            secs.append((s, dec, left))
            if not metar:
                changes.append(dec)
        periods = None if metar else change_periods(groups["valid"], changes)
        for i, (s, dec, left) in enumerate(secs):
            p = f"{seclist}[{i}]"
            w = "trend" if metar else "change"
            gs, ls = {}, {}
            for kind, g in dec:
                if kind in LISTS:
                    ls.setdefault(kind, []).append(as_kind(kind, g))
                elif kind in ("wind", "vis"):
                    gs[kind] = as_kind(kind, g)
            if metar:
                self._group(out, p + ".trend_indicator", "tind", trend_base(self.issue, dec), w, texts)
            else:
                self._group(out, p + ".change_indicator", "cind", periods[i], w, texts)
            for kind in SECTION_SINGLE:
                self._group(out, f"{p}.{LOC[kind]}", kind, gs.get(kind) or ABSENT[kind], w, texts)
            for kind in SECTION_LISTS:
                self._list(out, p + ".", kind, ls.get(kind, []), w, texts)
            self._derived(out, p, gs.get("vis", ABSENT["vis"]), ls, w)
            out.append(Obs(p, "code", self.section_text(s), "section", w))
            out.append(Obs(p, "unparsed_groups", [g.text for g in left], "unparsed", w))
        out.append(Obs(seclist, "__len__", len(secs), "list", "sections"))
        out.append(Obs(seclist, "codes", [self.section_text(s) for s in self.sections], "list", "sections"))
        # sections of the report
        bt = self.section_text(self.body)
        st = mk([x for i, s in enumerate(self.sections) for x in ((" " if i else ""), self.section_text(s))]) \
            if self.sections else ""
        out.append(Obs("", "raw_code", self.text(), "sections", "report"))
        out.append(Obs("", "body", bt, "sections", "report"))
        if metar:
            out.append(Obs("", "trend", st, "sections", "report"))
            out.append(Obs("", "remark", self.remark or "", "sections", "report"))
            out.append(Obs("", "sections", [bt, st, self.remark or ""], "sections", "report"))
        else:
            out.append(Obs("", "weather_changes", st, "sections", "report"))
            out.append(Obs("", "sections", [bt, st], "sections", "report"))
        out.append(Obs("", "unparsed_groups", unp, "unparsed", "report"))
        if texts and metar:
            out.append(Obs("", "__str__", model.alternatives(self._text, secs), "text", "report"))
        return out

    def _group(self, out, loc, kind, b, where, texts):
        m, t = MODEL[kind]
        for a, v in m(b).items():
            out.append(Obs(loc, a, v, kind, where))
        present = kind in ("tind",) or (b.get("code") is not None and kind != "cind")
        if texts and present and (where != "body" or self.what == "metar"):
            out.append(Obs(loc, "__str__", model.alternatives(t, b), kind, where))

    def _list(self, out, pre, kind, bs, where, texts):
        loc, cap = LISTS[kind]
        out.append(Obs(pre + loc, "__len__", len(bs), "list", where))
        out.append(Obs(pre + loc, "codes", [b["code"] for b in bs], "list", where))
        if kind == "windshear":
            al = bs[0]["all"] if len(bs) == 1 else False
            out.append(Obs(loc, "all_runways", al, "windshear", where))
            if not bs or al is True or al is False:
                ns = [] if al else [model.m_windshear(b)["name"] for b in bs]
                out.append(Obs(loc, "names", ns, "windshear", where))
        for i, b in enumerate(bs):
            self._group(out, f"{pre}{loc}[{i}]", kind, b, where, texts)

    def _derived(self, out, p, vis, lists, where):
        cl = lists.get("cloud", [])
        ws = lists.get("weather", [])
        out.append(Obs(p, "flight_rules", Late(flight_rules, vis["vis"], cl), "rules", where))
        out.append(Obs(p, "clouds.ceiling", Late(has_ceiling, cl), "ceiling", where))
        out.append(Obs(p, "should_be_cavok()", Late(should_be_cavok, vis["vis"], cl, ws), "ceiling", where))

    def _text(self, secs):
        lines = []
        for kind, g in self.decoded:
            lines.append(MODEL[kind][1](as_kind(kind, g)))
        for s, dec, _ in secs:
            sub = []
            for kind, g in dec:
                if kind == "tind":
                    sub.append(model.t_tind(trend_base(self.issue, dec)))
                elif kind != "tper":
                    sub.append(MODEL[kind][1](as_kind(kind, g)))
            lines.append(strip_join(sub))
        return strip_join(lines)


def blank(l):
    """Whether a line is empty."""
    if not isinstance(l, SymStr):
        return l == ""
    out = True
    for p in l.parts:
        e = lift(lambda s: s == "", p)
        if e is False:
            return False
        out = lift(lambda a, b: a and b, out, e)
    return out


def strip_join(lines):
    """The lines joined, without blank lines at the ends."""
    out = []
    started = False           # some line so far is not blank (may be symbolic)
    rest = [False]
    for l in reversed(lines):
        rest.append(lift(lambda a, e: a or not e, rest[-1], blank(l)))
    rest = rest[::-1]         # rest[i]: some line from i on is not blank
    for i, l in enumerate(lines):
        if i:
            out.append(lift(lambda a, r: "\n" if a and r else "", started, rest[i]))
        out.append(l)
        started = lift(lambda a, e: a or not e, started, blank(l))
    return mk(out) if out else ""


# ---------------------------------------------------------------- rules

def known(f, *args):
    """The value of f on this path (one path for each value)."""
    return core.concretize(lift(f, *args))


def flight_rules(vis, clouds):
    """C13."""
    feet = None
    for b in clouds:
        if known(lambda c: c in ("BKN", "OVC", "0VC", "VV"), b["cover"]):
            feet = b["feet"]
            break
    v = known(lambda v: 9 if v is None else (v >= 800) + (v >= 1600) + (v >= 5000) + (v >= 8000), vis)
    c = known(lambda f: 9 if f is None else sum(f * 0.3048 >= x for x in (60, 150, 300, 900)), feet)
    if v == c == 9:
        return None
    return ("VLIFR", "LIFR", "IFR", "MVFR", "VFR")[min(v, c)]


def has_ceiling(clouds):
    return any(known(lambda c, f: c in ("BKN", "OVC", "0VC") and f is not None and f <= 1500, b["cover"], b["feet"])
               for b in clouds)


def should_be_cavok(vis, clouds, weathers):
    if weathers or not clouds or not known(lambda v: v is not None and v >= 10000, vis) or has_ceiling(clouds):
        return False
    return all(known(lambda c, f, t: c != "VV" and t not in ("CB", "TCU") and (f is None or f >= 5000),
                     b["cover"], b["feet"], b["type"]) for b in clouds)


# ---------------------------------------------------------------- dates

def first_day(d, day):
    """The first date with that day on or after d."""
    while d.day != day:
        d += dt.timedelta(days=1)
    return d


def first_of_month(year, month, clock):
    d = clock[0] if clock else None
    return When(lift(lambda y, m, d: dt.date(d.year if y is None else y, d.month if m is None else m, 1),
                     year, month, d), 0)


def at(d, hour, minute=0):
    """The instant of a date at an hour (24 is the midnight ending it)."""
    return When(lift(lambda d, h: d + dt.timedelta(days=1) if h == 24 else d, d, hour),
                lift(lambda h, m: h % 24 * 60 + m, hour, minute))


def default_valid(issue):
    """24 hours from the next whole hour after the hour of issue."""
    hour = When(issue.d, lift(lambda t: t - t % 60, issue.t))
    a = hour.minutes(60)
    return {"code": None, "from": a, "until": a.minutes(24 * 60)}


def trend_base(report, dec):
    """Period of a METAR trend."""
    b = {"ind": None, "init": report, "end": report.minutes(120), "at": None}
    b["from"], b["until"] = report, b["end"]
    code = None
    for kind, g in dec:
        if kind == "tind":
            b["ind"] = g.text
            code = [g.text]
        elif kind == "tper":
            if code is not None:
                code += [" ", g.text]
            hh, mm = g.base["hour"], g.base["minute"]

            def when_(t, h, m):
                h0 = t // 60
                return (h - h0 if h >= h0 else h - h0 + 24) * 60 + m + h0 * 60 - t
            w = report.minutes(lift(when_, report.t, hh, mm))
            b[g.base["which"]] = w
    b["code"] = None if code is None else mk(code)
    return b


def change_periods(valid, changes):
    """Change indicators of a TAF: own period, period of the TAF, or FM."""
    out = []
    for dec in changes:
        ind = None
        per = None
        fm = None
        for kind, g in dec:
            if kind == "cind":
                ind = g.text
                fm = g.base.get("fm")
            elif kind == "cper":
                per = g.base
        b = {"ind": ind, "fm": fm is not None, "own": False, "code": ind}
        v = valid
        if fm is not None:
            d = lift(first_day, valid["from"].d, fm["day"])
            a = at(d, fm["hour"], fm["minute"])
            v = {"code": None, "from": a, "until": valid["until"]}
        if per is not None:
            v = period(per, valid["from"])
            b["own"] = True
            if fm is None and ind is not None:
                b["code"] = mk([ind, " ", per["code"]])
        b["valid"] = v
        out.append(b)
    # each FM ends one hour before the start of the next FM or BECMG
    for i, b in enumerate(out):
        if not b["fm"]:
            continue
        for n in out[i + 1:]:
            if n["ind"] is not None and (n["fm"] or n["ind"] == "BECMG"):
                b["valid"] = {**b["valid"], "code": None, "until": n["valid"]["from"].minutes(-60)}
                break
    return out


def period(g, start):
    """Valid period given by days and hours, from the start of the TAF or its issue."""
    a = lift(first_day, start.d, g["fmday"])
    z = lift(first_day, a, g["tlday"])
    return {"code": g["code"], "from": at(a, g["fmhour"]), "until": at(z, g["tlhour"])}
