"""C24: the stations."""
import importlib
import re
import string

from contracts import dates, prove
from contracts.prove import PLAIN, Failure
from pyvc.core import Unsupported

from . import common
from .common import Check, Task
from .defs import CHECKS

FORMAT = re.compile(r"[A-Z][A-Z0-9]{3}")
FIELDS = ("code", "name", "icao", "iata", "synop", "latitude", "longitude", "elevation", "country")
LETTERS, ALNUM = string.ascii_uppercase, string.ascii_uppercase + string.digits
# read as another kind of group, or as the beginning of another section, in the place of the station
TAKEN = {"taf": {"AUTO", "TEST", "FINO", "CORR"}, "metar": set()}
CHUNKS = 16


def table():
    """Code -> fields, for the codes of the database that have the format of a station."""
    first, countries = dates.database()
    out = {}
    for code, row in first.items():
        if isinstance(code, str) and FORMAT.fullmatch(code):
            b = dates.station_base(code, row, countries)
            out[code] = [b[k] for k in FIELDS]
    return out


def expect(db, code):
    return db.get(code) or [code] + [None] * 8


def usable(code, via):
    return code not in TAKEN[via] and not (via == "metar" and code.startswith("RMK"))


def compare(name, db, codes, via, st, count):
    codes = [c for c in codes if usable(c, via)]
    ans = PLAIN.ask({"op": "stations", "codes": codes, "via": via, "fields": FIELDS})
    if isinstance(ans, dict):
        raise Unsupported(f"the worker ended: {ans}")
    count(len(codes) * len(FIELDS))
    for code, got in zip(codes, ans):
        want = expect(db, code)
        if got is None and want[1:] == [None] * 8:
            continue
        if got != want:
            for f, a, b in zip(FIELDS, got, want) if isinstance(got, list) else [("construction", got, want)]:
                if a != b:
                    return Failure(f"{name} : station.{f}", f"{via} with station {code}: {f} is {a!r}, expected {b!r}",
                                   {"class": via, "code": code, "observer": f"station.{f}", "expected": repr(b),
                                    "actual": repr(a)})
    return None


def known_task(i, via):
    name = f"codes of the database {i} in {via}"

    def run(st):
        st.names.add(name)
        db = table()
        codes = sorted(db)[i::CHUNKS]
        common.rng(name).shuffle(codes)
        f = compare(name, db, codes, via, st, lambda n: st.decided("evaluation over the whole domain", n))
        # again, in another order
        return f or compare(name, db, codes[::-1][:200], via, st, lambda n: None)
    return Task(name, run, cost=2)


class Rest(str):
    """Any code of the format that is not in the database: equal to no text out of that set."""

    def __eq__(self, x):
        if isinstance(x, str) and x is not self:
            if x in self.db or not FORMAT.fullmatch(x):
                return False
            raise Unsupported(f"a code that is not in the database compared with {x!r}")
        return x is self

    def __ne__(self, x):
        return not self == x

    def __hash__(self):
        raise Unsupported("hash of a code")

    def __bool__(self):
        return True

    def __len__(self):
        return 4

    def replace(self, a, b, n=-1):
        if re.search("[A-Z0-9]", a) or not a:
            raise Unsupported(f"replace of {a!r} in a code that is not in the database")
        return self

    def strip(self, c=None):
        return self if c is None else _no("strip")(self)


def _no(n):
    def f(self, *a, **k):
        raise Unsupported(f"{n} of a code that is not in the database")
    return f


for _n in dir(str):
    if _n not in ("__class__", "__new__", "__init__", "__eq__", "__ne__", "__hash__", "__bool__", "__len__", "__getattribute__",
                  "__getattr__", "__setattr__", "__delattr__", "__init_subclass__", "__subclasshook__", "__doc__", "__dir__",
                  "replace", "strip", "__reduce__", "__reduce_ex__", "__sizeof__", "__getnewargs__", "__str__", "__repr__", "__getstate__"):
        setattr(Rest, _n, _no(_n))


def others(rng, db, n):
    out = []
    while len(out) < n:
        c = rng.choice(LETTERS) + "".join(rng.choice(ALNUM) for _ in range(3))
        if c not in db:
            out.append(c)
    return out


def near(db, rng, n):
    """Codes next to those of the database."""
    out = []
    codes = sorted(db)
    iata = sorted({r[3] for r in db.values() if r[3] and r[3] != "None"})
    while len(out) < n:
        c = list(rng.choice(codes))
        k = rng.randrange(6)
        if k < 4:
            c[k] = rng.choice(LETTERS if k == 0 else ALNUM)
            c = "".join(c)
        elif k == 4:
            c = rng.choice(LETTERS) + rng.choice(iata)
        else:
            c = rng.choice(iata) + rng.choice(ALNUM)
        if FORMAT.fullmatch(c) and c not in db:
            out.append(c)
    return out


def rest_task():
    """Station of an arbitrary code that is not in the database."""
    name = "any code out of the database"

    def run(st):
        st.names.add(name)
        db = table()
        Station = importlib.import_module("aeromet_py.reports.models.base").Station
        c = Rest("ZZZZ")
        c.db = db
        try:
            s = Station(c, "ICAO")
            got = [getattr(s, f) for f in FIELDS]
        except Unsupported:
            raise
        except Exception as e:
            raise Unsupported(f"{type(e).__name__}: {e}")
        for f, a in zip(FIELDS, got):
            ok = a is c if f == "code" else a is None
            st.decided("evaluation with an abstract code", ok=ok)
            if not ok:
                f = sampled(st)
                if f:
                    return f
                raise Unsupported(f"{f} of a code out of the database is {a!r}: does not replay on the plain code")
        return None

    def sampled(st):
        db = table()
        r = common.rng(name)
        for via in ("metar", "taf"):
            f = compare(name, db, others(r, db, 6000) + near(db, r, 6000), via, st, lambda n: bounded(st, n))
            if f:
                return f
        return None
    return Task(name, run, lambda st: sampled(st), cost=3)


def bounded(st, n):
    st.bounded += n


def sample_task(i, via):
    name = f"sample of codes out of the database {i} in {via}"

    def run(st):
        db = table()
        r = common.rng(name)
        return compare(name, db, others(r, db, 400) + near(db, r, 400) + ["AAAA", "Z999", "ZZZZ", "A000", "NONE", "PANA"],
                       via, st, lambda n: bounded(st, n))
    return Task(name, run)


def all_task(a, b, via):
    name = f"every code {a}{b}.. out of the database in {via}"

    def run(st):
        db = table()
        codes = [a + b + x + y for x in ALNUM for y in ALNUM]
        return compare(name, db, [c for c in codes if c not in db], via, st,
                       lambda n: st.decided("evaluation over the whole domain", n))
    return Task(name, run)


def none_task():
    """Without station group every field is None."""
    name = "no station group"

    def run(st):
        st.names.add(name)
        for via, text in (("metar", "METAR"), ("metar", "METAR 071200Z"), ("taf", "TAF"), ("taf", "TAF 071130Z 0712/0812"),
                          ("metar", "METAR panc 071200Z"), ("taf", "TAF PAN 071130Z")):
            ans = PLAIN.ask({"op": "report", "cls": via, "text": text, "year": 2022, "month": 3,
                             "paths": ["station." + f for f in FIELDS]})
            bad = prove.compare([type("O", (), {"path": "station." + f, "exp": None}) for f in FIELDS], ans)
            st.decided("evaluation over the whole domain", len(FIELDS), bad is None)
            if bad:
                return Failure(f"{name} : {bad[0]}", f"{text!r}: {bad[0]} is {bad[2]!r}", {"report": text, "class": via,
                               "observer": bad[0]})
        return None
    return Task(name, run)


def c24(tier):
    for i in range(CHUNKS):
        for via in ("metar", "taf"):
            yield known_task(i, via)
            yield sample_task(i, via)
    yield rest_task()
    yield none_task()
    if tier != "quick":
        for a in LETTERS:
            for b in ALNUM:
                for via in ("metar", "taf"):
                    yield all_task(a, b, via)


CHECKS["C24"] = Check(c24, explanation="every code of the database (the rows and the names of countries are read from the data "
                      "files of the repository as literals), evaluated one by one through METAR and TAF; any other code by one "
                      "run of Station with an abstract code that is equal to no code of the database (and all the 1.2 million "
                      "codes one by one in the thorough tier)")
