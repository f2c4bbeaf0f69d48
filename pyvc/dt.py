"""Symbolic dates: a date and a minute of the day, each a finite-table value."""
import datetime as _dt
import re

from . import core
from .core import Lift, Unsupported, branch, lift

REAL = _dt.datetime


class SymTD:
    """timedelta: whole days plus minutes (ints or Lifts)."""
    __slots__ = ("d", "m")

    def __init__(self, d, m):
        self.d = d
        self.m = m

    def __deepcopy__(self, memo):
        return self

    def __pv_assign__(self, asg):
        return _dt.timedelta(days=core.assign(self.d, asg), minutes=core.assign(self.m, asg))

    def __pv_vars__(self, out):
        core.all_vars(self.d, out)
        core.all_vars(self.m, out)

    def full(self):
        return lift(lambda d, m: _dt.timedelta(days=d, minutes=m), self.d, self.m)

    def __eq__(self, o):
        if isinstance(o, _dt.timedelta):
            o = from_td(o)
        if not isinstance(o, SymTD):
            return NotImplemented
        if self.d is o.d and self.m is o.m:
            return True
        dd = lift(lambda a, b: a - b, self.d, o.d)
        mm = lift(lambda a, b: b - a, self.m, o.m)
        return lift(lambda a, b: a * 1440 == b, dd, mm)

    def _c(self, o, f):
        if isinstance(o, _dt.timedelta):
            o = from_td(o)
        if not isinstance(o, SymTD):
            return NotImplemented
        dd = lift(lambda a, b: a - b, self.d, o.d)
        mm = lift(lambda a, b: a - b, self.m, o.m)
        return lift(lambda a, b: f(a * 1440 + b), dd, mm)

    def __lt__(self, o):
        return self._c(o, lambda x: x < 0)

    def __le__(self, o):
        return self._c(o, lambda x: x <= 0)

    def __gt__(self, o):
        return self._c(o, lambda x: x > 0)

    def __ge__(self, o):
        return self._c(o, lambda x: x >= 0)

    __hash__ = None

    def __neg__(self):
        return SymTD(lift(lambda a: -a, self.d), lift(lambda a: -a, self.m))

    def __add__(self, o):
        if isinstance(o, _dt.timedelta):
            o = from_td(o)
        if isinstance(o, SymTD):
            return SymTD(self.d + o.d, self.m + o.m)
        if isinstance(o, REAL):
            return from_dt(o) + self
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _dt.timedelta):
            o = from_td(o)
        return self + (-o)

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, n):
        return SymTD(self.d * n, self.m * n)

    __rmul__ = __mul__

    @property
    def days(self):
        return lift(lambda t: t.days, self.full())

    @property
    def seconds(self):
        return lift(lambda t: t.seconds, self.full())

    def total_seconds(self):
        return lift(lambda t: t.total_seconds(), self.full())

    def __str__(self):
        return core.concretize(lift(str, self.full()))

    def __bool__(self):
        return branch(lift(bool, self.full()))


def from_td(t):
    if t.microseconds or t.seconds % 60:
        raise Unsupported("timedelta with seconds")
    return SymTD(t.days, t.seconds // 60)


def timedelta(*a, **k):
    if not core.deep_sym(list(a)) and not core.deep_sym(k):
        return _dt.timedelta(*a, **k)
    names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
    kw = dict(zip(names, a))
    kw.update(k)
    d = 0
    m = 0
    scale = {"days": 1440, "weeks": 7 * 1440, "hours": 60, "minutes": 1, "seconds": 1 / 60}

    def minutes(x, k):
        r = x * k if k >= 1 else x / 60
        if r != int(r):
            raise Unsupported("timedelta with seconds")
        return int(r)

    def whole(x):
        if x != int(x):
            raise Unsupported("timedelta with a part of a day")
        return int(x)
    for n, v in kw.items():
        if n not in scale:
            raise Unsupported("timedelta with " + n)
        k = scale[n]
        if n in ("days", "weeks") and not isinstance(v, float):
            d = d + lift(lambda x, k=k: whole(x) * (k // 1440), v)
        else:
            m = m + lift(lambda x, k=k: minutes(x, k), v)
    return SymTD(d, m)


class SymDT:
    __slots__ = ("date_", "tod")
    tzinfo = None
    fold = 0
    microsecond = 0
    second = 0

    def __init__(self, date_, tod):
        self.date_ = date_
        self.tod = tod

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __pv_assign__(self, asg):
        d = core.assign(self.date_, asg)
        m = core.assign(self.tod, asg)
        return REAL(d.year, d.month, d.day, m // 60, m % 60)

    def __pv_vars__(self, out):
        core.all_vars(self.date_, out)
        core.all_vars(self.tod, out)

    def __repr__(self):
        return f"SymDT({self.date_!r}, {self.tod!r})"

    year = property(lambda s: lift(lambda d: d.year, s.date_))
    month = property(lambda s: lift(lambda d: d.month, s.date_))
    day = property(lambda s: lift(lambda d: d.day, s.date_))
    hour = property(lambda s: lift(lambda m: m // 60, s.tod))
    minute = property(lambda s: lift(lambda m: m % 60, s.tod))

    def weekday(self):
        return lift(lambda d: d.weekday(), self.date_)

    def toordinal(self):
        return lift(lambda d: d.toordinal(), self.date_)

    def timetuple(self):
        raise Unsupported("timetuple")

    def timestamp(self):
        raise Unsupported("timestamp")

    def date(self):
        return self.date_

    def replace(self, **k):
        d, t = self.date_, self.tod
        for n in ("second", "microsecond"):
            v = k.pop(n, 0)
            if v != 0:
                raise Unsupported("seconds")
        k.pop("tzinfo", None)
        k.pop("fold", None)
        h = k.pop("hour", None)
        mi = k.pop("minute", None)
        if h is not None:
            def hh(t, h):
                if not 0 <= h <= 23:
                    raise ValueError("hour must be in 0..23")
                return h * 60 + t % 60
            if isinstance(t, Lift) and mi is not None:
                t = 0
            t = lift(hh, lift(lambda x: x % 60, t), h)
        if mi is not None:
            def mm(t, m):
                if not 0 <= m <= 59:
                    raise ValueError("minute must be in 0..59")
                return t + m
            t = lift(mm, lift(lambda x: x - x % 60, t), mi)
        if k:
            names = sorted(k)
            if set(names) - {"year", "month", "day"}:
                raise TypeError("replace")
            d = lift(lambda d, *v: d.replace(**dict(zip(names, v))), d, *[k[n] for n in names])
        return mkdt(d, t)

    def __add__(self, o):
        if isinstance(o, _dt.timedelta):
            o = from_td(o)
        if not isinstance(o, SymTD):
            return NotImplemented
        t = lift(lambda a, b: a + b, self.tod, o.m)
        carry = lift(lambda x: x // 1440, t)
        if isinstance(carry, Lift):
            carry = core.concretize(carry)
        t = lift(lambda x: x % 1440, t)
        n = o.d + carry
        d = self.date_ if isinstance(n, int) and n == 0 else \
            lift(lambda d, n: d + _dt.timedelta(days=n), self.date_, n)
        return mkdt(d, t)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (_dt.timedelta, SymTD)):
            return self + (-o)
        if isinstance(o, REAL):
            o = from_dt(o)
        if isinstance(o, SymDT):
            return diff(self, o)
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, REAL):
            return diff(from_dt(o), self)
        return NotImplemented

    def __eq__(self, o):
        if isinstance(o, REAL):
            o = from_dt(o)
        if not isinstance(o, SymDT):
            return False
        a = True if self.date_ is o.date_ else lift(lambda x, y: x == y, self.date_, o.date_)
        if not branch(a):
            return False
        return True if self.tod is o.tod else lift(lambda x, y: x == y, self.tod, o.tod)

    def __ne__(self, o):
        r = self.__eq__(o)
        return lift(lambda b: not b, r)

    def _c(self, o, f):
        if isinstance(o, REAL):
            o = from_dt(o)
        if not isinstance(o, SymDT):
            raise TypeError("can't compare datetime.datetime to %s" % type(o).__name__)
        c = lift(lambda x, y: (x > y) - (x < y), self.date_, o.date_)
        c = core.concretize(c)
        if c:
            return f(c)
        return lift(lambda x, y: f((x > y) - (x < y)), self.tod, o.tod)

    def __lt__(self, o):
        return self._c(o, lambda c: c < 0)

    def __le__(self, o):
        return self._c(o, lambda c: c <= 0)

    def __gt__(self, o):
        return self._c(o, lambda c: c > 0)

    def __ge__(self, o):
        return self._c(o, lambda c: c >= 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic date")

    def text(self, sep=" ", secs=True):
        from . import strings
        d = lift(lambda d: d.strftime("%04d-" % d.year + "%m-%d"), self.date_)
        t = lift(lambda m: "%02d:%02d" % (m // 60, m % 60) + (":00" if secs else ""), self.tod)
        return strings.mk((d, sep, t))

    def isoformat(self, sep="T", timespec="auto"):
        return self.text(sep, timespec in ("auto", "seconds"))

    def strftime(self, fmt):
        from . import strings
        out = []
        for tok in re.findall(r"%.|[^%]+", fmt):
            if tok[0] != "%":
                out.append(tok)
            elif tok[1] in "HMSIp":
                out.append(lift(lambda m, tok=tok: REAL(2000, 1, 1, m // 60, m % 60).strftime(tok), self.tod))
            elif tok[1] == "%":
                out.append("%")
            else:
                out.append(lift(lambda d, tok=tok: d.strftime(tok), self.date_))
        return strings.mk(out)

    def __str__(self):
        return str(self.text())

    def __format__(self, spec):
        return str(self.strftime(spec) if spec else self.text())


core.PROXY_TYPES.extend([SymTD, SymDT])


def diff(a, b):
    d = lift(lambda x, y: (x - y).days, a.date_, b.date_)
    m = lift(lambda x, y: x - y, a.tod, b.tod)
    return SymTD(d, m)


def from_dt(o):
    if o.second or o.microsecond:
        raise Unsupported("datetime with seconds")
    return SymDT(o.date(), o.hour * 60 + o.minute)


def mkdt(d, t):
    if isinstance(d, _dt.date) and isinstance(t, int):
        return REAL(d.year, d.month, d.day, t // 60, t % 60)
    return SymDT(d, t)


def construct(year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
    if not core.deep_sym([year, month, day, hour, minute, second, microsecond]):
        return REAL(year, month, day, hour, minute, second, microsecond, tzinfo, fold=fold)
    if second != 0 or microsecond != 0:
        raise Unsupported("seconds")
    d = lift(lambda y, m, dd: _dt.date(y, m, dd), year, month, day)

    def tod(h, m):
        REAL(2000, 1, 1, h, m)
        return h * 60 + m
    return mkdt(d, lift(tod, hour, minute))


def combine(d, t):
    if isinstance(t, _dt.time):
        return mkdt(d, t.hour * 60 + t.minute)
    raise Unsupported("combine")


def strptime(s, fmt):
    """datetime.strptime through the regular expression of CPython's _strptime."""
    from . import strings
    if not core.is_sym(s):
        return REAL.strptime(s, fmt)
    import _strptime
    fmt = core.concretize(fmt)
    used = re.findall(r"%(.)", fmt)
    if set(used) - set("YmdHM"):
        raise Unsupported("strptime " + fmt)
    REAL.strptime("2000", "%Y")
    pat = _strptime._TimeRE_cache.compile(fmt)
    # the format regex is case-insensitive; digits only, so a plain one is the same
    pat = re.compile(pat.pattern, pat.flags & ~re.IGNORECASE)
    m = strings.match(pat, s)
    if m is None:
        raise ValueError("time data does not match format %r" % fmt)
    n = len(s.chars()) if isinstance(s, strings.SymStr) else len(s)
    if m.end() != n:
        raise ValueError("unconverted data remains")
    g = m.groupdict()

    def num(k, dflt):
        return dflt if g.get(k) is None else lift(int, g[k])
    return construct(num("Y", 1900), num("m", 1), num("d", 1), num("H", 0), num("M", 0))
