"""Worker: runs the plain code of /repo for requests read from the standard input."""
import contextlib
import datetime
import io
import json
import re
import sys
import time

import aeromet_py
import readers
from aeromet_py import Metar, Taf

TOKEN = re.compile(r"\.?([A-Za-z_]\w*)(\(\))?|\[(\d+)\]|\[([a-z]+)\]")


def read(obj, path):
    for name, call, idx, key in TOKEN.findall(path):
        if key:
            obj = obj[key]
        elif idx:
            obj = obj[int(idx)]
        elif name == "__len__":
            obj = len(obj)
        elif name == "__str__":
            obj = str(obj)
        elif name in ("__iter__", "__first__", "__nested__"):
            obj = readers.iterate(obj, name)
        else:
            obj = getattr(obj, name)
            if call:
                obj = obj()
    return obj


def enc(x):
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, REAL):
        return {"__dt__": x.isoformat()}
    if isinstance(x, datetime.timedelta):
        return {"__td__": {"days": x.days, "seconds": x.seconds, "microseconds": x.microseconds}}
    if isinstance(x, (list, tuple)):
        return [enc(i) for i in x]
    if isinstance(x, dict):
        return {"__dict__": [[k, enc(v)] for k, v in x.items()]}
    return {"__obj__": type(x).__name__}


def raised(e):
    return {"__raised__": type(e).__name__, "text": str(e)}


def values(obj, paths):
    out = []
    for p in paths:
        try:
            out.append(enc(read(obj, p)))
        except Exception as e:
            out.append(raised(e))
    return out


REAL, DATE, TIME, GMTIME = datetime.datetime, datetime.date, time.time, time.gmtime
NOW = [None]


class Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, REAL)


class Frozen(REAL, metaclass=Meta):
    """datetime with a clock of the request; the local time is thirteen hours ahead of UTC."""
    @classmethod
    def utcnow(cls):
        return NOW[0]

    @classmethod
    def now(cls, tz=None):
        if tz is None:
            return NOW[0] + datetime.timedelta(hours=13)
        return NOW[0].replace(tzinfo=datetime.timezone.utc).astimezone(tz)

    @classmethod
    def today(cls):
        return cls.now()


class DMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, DATE)


class FrozenDate(DATE, metaclass=DMeta):
    @classmethod
    def today(cls):
        return Frozen.now().date()


def freeze(now):
    """Sets the clock that the package sees (None for the real one)."""
    a, b = {REAL: Frozen, DATE: FrozenDate}, {Frozen: REAL, FrozenDate: DATE}
    new = b if now is None else a
    NOW[0] = now and REAL.fromisoformat(now)
    for m in [datetime] + [m for n, m in sys.modules.items() if n.split(".")[0] == "aeromet_py"]:
        for n, v in list(vars(m).items()):
            if isinstance(v, type) and v in new:
                setattr(m, n, new[v])
    if now is None:
        time.time, time.gmtime = TIME, GMTIME
    else:
        sec = (NOW[0] - REAL(1970, 1, 1)).total_seconds()
        time.time = lambda: sec
        time.gmtime = lambda s=None: GMTIME(sec if s is None else s)


def op_report(q):
    if q.get("clock"):
        freeze(q["clock"])
        try:
            return op_report_(q)
        finally:
            freeze(None)
    return op_report_(q)


def op_report_(q):
    cls = Metar if q["cls"] == "metar" else Taf
    kw = {k: q[k] for k in ("year", "month") if q.get(k) is not None}
    if q.get("truncate"):
        kw["truncate"] = True
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        try:
            obj = cls(q["text"], **kw)
        except Exception as e:
            return {"built": raised(e), "values": [], "printed": buf.getvalue()}
        vals = values(obj, q["paths"])
        extra = plain_ops.EXTRAS[q["extra"]](obj, q) if q.get("extra") else None
    return {"built": True, "values": vals, "printed": buf.getvalue(), "extra": extra}


import plain_ops  # noqa: E402

OPS = {"report": op_report, **plain_ops.OPS}


def main():
    sys.modules["plain"] = sys.modules["__main__"]
    out = sys.stdout
    for line in sys.stdin:
        q = json.loads(line)
        out.write(json.dumps(OPS[q["op"]](q)) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
