"""Discharging the contracts: symbolic execution of the instrumented code of
/repo against the specification, and replay of the failures on the plain code."""
import datetime as dt
import json
import math
import os
import random
import re
import subprocess
import sys
import time

from pyvc import builtins_ as B
from pyvc import core, loader, strings
from pyvc import dt as symdt
from pyvc.core import CTX, Explorer, Lift, OutOfTime, PathKill, Unsupported, lift
from pyvc.strings import SymStr

from . import model, readers, report
from .model import CONV, Dur, Num, SOME, When

REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


class Raised:
    """An exception met where a value was expected."""

    def __init__(self, e):
        self.name = type(e).__name__
        self.text = f"{type(e).__name__}: {e}"

    def __repr__(self):
        return f"<raised {self.text}>"


# ------------------------------------------------------------------ reading

TOKEN = re.compile(r"\.?([A-Za-z_]\w*)(\(\))?|\[(\d+)\]|\[([a-z]+)\]")


def read(obj, path, length=B.s_len, text=B.s_str, dumps=None):
    """Value of an attribute path: a.b[0].c, f(), __len__, __str__."""
    for name, call, idx, key in TOKEN.findall(path):
        if key:
            obj = obj[key]
        elif idx:
            obj = obj[int(idx)]
        elif name == "__len__":
            obj = length(obj)
        elif name == "__str__":
            obj = text(obj)
        elif name in ("__iter__", "__first__", "__nested__"):
            obj = readers.iterate(obj, name)
        else:
            obj = getattr(obj, name)
            if call:
                obj = obj()
    return obj


# ------------------------------------------------------------------ agreement

def close(v, a, tol):
    if v is None or a is None:
        return v is None and a is None
    if isinstance(a, bool) or not isinstance(a, (int, float)):
        return False
    if math.isnan(a) or math.isinf(a):
        return False
    if tol == CONV:
        return abs(v - a) <= 1e-5 * abs(v) + 1e-9
    return abs(v - a) <= 1e-9 * max(1.0, abs(v))


def same_(e, a):
    if isinstance(e, float) and isinstance(a, (int, float)) and not isinstance(a, bool):
        return close(e, a, None)
    return type(e) is type(a) and e == a


def td_minutes(a):
    if isinstance(a, dt.timedelta):
        a = symdt.from_td(a)
    return a


@core.merge
def same_text(a, b):
    return strings.eq(a, b)


def agree(exp, act):
    """Conditions (True or symbolic booleans) under which act is as expected."""
    if isinstance(exp, report.Late):
        exp = exp()
    if isinstance(act, Raised):
        return [False]
    if exp is SOME:
        return [B.is_not(act, None)]
    if isinstance(exp, model.OneOf):
        alts = []
        for e in exp.alts:
            c = agree(e, act)
            alts.append(c[0] if len(c) == 1 else False)
        return [lift(lambda *a: any(a), *alts)]
    if isinstance(exp, Num):
        if isinstance(act, (symdt.SymDT, symdt.SymTD)):
            return [False]
        tol = exp.tol
        return [lift(lambda v, a: close(v, a, tol), exp.v, act)]
    if isinstance(exp, When):
        if isinstance(act, dt.datetime):
            if act.second or act.microsecond or act.tzinfo is not None:
                return [False]
            return [lift(lambda d, x=act.date(): d == x, exp.d),
                    lift(lambda t, x=act.hour * 60 + act.minute: t == x, exp.t)]
        if isinstance(act, symdt.SymDT):
            return [lift(lambda x, y: x == y, exp.d, act.date_), lift(lambda x, y: x == y, exp.t, act.tod)]
        return [False]
    if isinstance(exp, Dur):
        a = td_minutes(act) if isinstance(act, (dt.timedelta, symdt.SymTD)) else None
        if a is None:
            return [False]
        d, m = exp.parts()
        c = [lift(lambda x, y: x == y, d, a.d), lift(lambda x, y: x == y, m, a.m)]
        if all(x is True for x in c):
            return c
        return [lift(lambda x, y, z, w: x * 1440 + y == z * 1440 + w, d, m, a.d, a.m)]
    if isinstance(exp, (list, tuple)):
        if not isinstance(act, (list, tuple)) or len(exp) != len(act):
            return [False]
        return [c for e, a in zip(exp, act) for c in agree(e, a)]
    if isinstance(exp, dict):
        if not isinstance(act, dict) or set(map(str, exp)) != set(map(str, act)):
            return [False]
        return [c for k in exp for c in agree(exp[k], act[k])]
    if isinstance(exp, (symdt.SymDT, symdt.SymTD)) or isinstance(act, (symdt.SymDT, symdt.SymTD)):
        try:
            return [exp == act]
        except TypeError:
            return [False]
    if isinstance(exp, SymStr) or isinstance(act, SymStr):
        if isinstance(exp, (SymStr, str)) and isinstance(act, (SymStr, str)):
            return [same_text(exp, act)]
        return [lift(same_, exp, act)] if isinstance(exp, Lift) or isinstance(act, Lift) else [False]
    if isinstance(exp, Lift) or isinstance(act, Lift):
        if isinstance(act, Lift) or core.is_sym(act) or act is None or isinstance(act, (str, int, float, bool, dt.date)):
            return [lift(same_, exp, act)]
        return [False]
    return [same_(exp, act)]


def refute(conds):
    """An assignment of the path that makes a condition false, or None."""
    for c in conds:
        if c is True:
            continue
        if isinstance(c, Lift):
            bad = [r for r, v in c.cur() if not v]
            if not bad:
                continue
            st = CTX.store.restrict(c.vars, bad)
            return st.sample(random.Random(1))
        if not c:
            return CTX.store.sample(random.Random(1))
    return None


# ------------------------------------------------------------------ the plain code

class Plain:
    """Worker running the uninstrumented code of /repo in its own interpreter."""

    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen([VENV, "-B", os.path.join(HERE, "plain.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, text=True, env=env, cwd="/")
        self.pid = os.getpid()

    def ask(self, req):
        if self.p is None or self.pid != os.getpid() or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return {"dead": True}
        return decode_plain(json.loads(line))

    def close(self):
        if self.p is not None and self.pid == os.getpid():
            self.p.stdin.close()
            self.p.wait()
        self.p = None


def decode_plain(x):
    if isinstance(x, dict):
        if "__dt__" in x:
            return dt.datetime.fromisoformat(x["__dt__"])
        if "__td__" in x:
            return dt.timedelta(**x["__td__"])
        if "__raised__" in x:
            r = Raised(Exception())
            r.name = x["__raised__"]
            r.text = f"{x['__raised__']}: {x['text']}"
            return r
        if "__obj__" in x:
            return Other(x["__obj__"])
        if "__dict__" in x:
            return {k: decode_plain(v) for k, v in x["__dict__"]}
        return {k: decode_plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [decode_plain(i) for i in x]
    return x


class Other:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


PLAIN = Plain()


# ------------------------------------------------------------------ checking

TABLES = "exhaustive tables over path conditions (pyvc)"


class Failure:
    def __init__(self, obligation, detail, replay):
        self.obligation = obligation
        self.detail = detail
        self.replay = replay      # dict for the replay file

    def __repr__(self):
        return f"Failure({self.obligation}: {self.detail})"


class Stats:
    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.paths = 0
        self.rows = 0
        self.samples = 0
        self.bounded = 0
        self.names = set()
        self.unsupported = []
        self.time = 0.0
        self.backends = {}
        self.examples = []

    def decided(self, backend, n=1, ok=True):
        """n obligations decided by a back end."""
        self.obligations += n
        if ok:
            self.discharged += n
        self.backends[backend] = self.backends.get(backend, 0) + n

    def merge(self, o):
        for k in ("obligations", "discharged", "trivial", "paths", "rows", "samples", "bounded", "time"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.names |= o.names
        self.unsupported += o.unsupported
        for k, v in o.backends.items():
            self.backends[k] = self.backends.get(k, 0) + v
        self.examples = (self.examples + o.examples)[:5]


def show(x):
    if isinstance(x, report.Late):
        return x()
    if isinstance(x, Num):
        return x.v
    if isinstance(x, When):
        return dt.datetime.combine(x.d, dt.time(x.t // 60, x.t % 60)).isoformat(" ") if isinstance(x.d, dt.date) else "?"
    if isinstance(x, Dur):
        d, m = x.parts()
        return str(dt.timedelta(days=d, minutes=m))
    if isinstance(x, (list, tuple)):
        return [show(i) for i in x]
    if isinstance(x, dict):
        return {k: show(v) for k, v in x.items()}
    return x


def modules():
    return sys.modules["aeromet_py"]


def cls_of(rep):
    a = modules()
    return a.Metar if rep.what == "metar" else a.Taf


def ck(conds):
    return all(c is True for c in conds)


def check_report(rep, name, keep, st, texts=True, extra=None, truncate=False, samples=1):
    """Every observation kept of every path of the report agrees with its contract.

    Returns a Failure confirmed on the plain code, or None."""
    st.names.add(name)
    text = rep.text()
    cls = cls_of(rep)
    rng = random.Random(os.environ.get("VERIF_SEED", "1") + name)
    t0 = time.time()
    f = None
    try:
        while True:
            s1 = Stats()
            try:
                f = _check(rep, name, keep, s1, texts, extra, text, cls, rng, truncate, samples)
                break
            except core.Restart:
                continue
            finally:
                last = s1
                CTX.hooks.pop("clock", None)
        st.merge(last)
    except Unsupported as e:
        st.unsupported.append((name, str(e)))
        f = battery(rep, name, keep, st, texts, extra, text, rng, 60)
    finally:
        st.time += time.time() - t0
    return f


def _check(rep, name, keep, st, texts, extra, text, cls, rng, truncate, samples):
    def build():
        try:
            return cls(text, year=rep.year, month=rep.month, **({"truncate": True} if truncate else {}))
        except Exception as e:
            return Raised(e)
    if rep.clock is not None:
        CTX.hooks["clock"] = lambda: symdt.mkdt(*rep.clock)
    ex = Explorer()
    n0 = CTX.stats["rows"]
    wanted = [o for o in rep.expected(texts) if keep(o)]
    for obj in ex.run(build):
        st.paths += 1
        ex_store = CTX.store
        if isinstance(obj, Raised):
            st.obligations += 1
            asg = CTX.store.sample(rng)
            fl = confirm(rep, name, keep, texts, extra, asg, "construction", st)
            if fl:
                return fl
            raise Unsupported(f"{obj.text} raised by the instrumented code only")
        for o in wanted:
            def body():
                try:
                    v = read(obj, o.path)
                except Exception as e:
                    v = Raised(e)
                return refute(agree(o.exp, v))
            for bad in Explorer(base=ex_store).run(body):
                st.decided(TABLES, ok=bad is None)
                if bad is None:
                    continue
                full = complete(bad, text, rep.year, rep.clock)
                fl = confirm(rep, name, keep, texts, extra, full, o.path, st)
                if fl:
                    return fl
                raise Unsupported(f"{o.path}: the failure does not replay on the plain code")
        for part in extra.parts(obj, rep) if extra is not None else ():
            for bad, n, what in Explorer(base=ex_store).run(part):
                st.decided(TABLES, n, bad is None)
                if bad is None:
                    continue
                full = complete(bad, text, rep.year, rep.clock)
                fl = confirm(rep, name, keep, texts, extra, full, what, st)
                if fl:
                    return fl
                raise Unsupported(f"{what}: the failure does not replay on the plain code")
        # one concrete instance of the path on the plain code
        if samples and (st.paths <= 40 or rng.random() < 0.1):
            for _ in range(samples):
                asg = complete(ex_store.sample(rng), text, rep.year, rep.clock)
                fl = confirm(rep, name, keep, texts, extra, asg, None, st)
                st.samples += 1
                if fl:
                    return fl
    st.rows += CTX.stats["rows"] - n0
    return None


def complete(asg, *values):
    """Assignment extended to the variables that the path did not look at."""
    asg = dict(asg)
    rng = random.Random(7)
    for x in values:
        for v in core.all_vars(x):
            if v not in asg:
                asg[v] = v.dom[rng.randrange(len(v.dom))]
    return asg


def all_asg(rep, asg):
    return complete(asg, rep.text(), rep.year, rep.clock, *[g.base for g in rep.body], *[g.base for s in rep.sections for g in s])


def confirm(rep, name, keep, texts, extra, asg, path, st):
    """Compare the plain code with the contract for one assignment."""
    asg = all_asg(rep, asg)
    text = core.assign(rep.text(), asg)
    r = concrete(rep, asg)
    obs = [o for o in r.expected(texts) if keep(o)]
    req = {"op": "report", "cls": r.what, "text": text, "year": r.year, "month": r.month,
           "paths": [o.path for o in obs], **({"extra": extra.name, **extra.request} if extra else {}),
           "deep": path is not None}
    if r.clock is not None:
        req["clock"] = dt.datetime.combine(r.clock[0], dt.time(r.clock[1] // 60, r.clock[1] % 60)).isoformat()
    ans = PLAIN.ask(req)
    if isinstance(ans, dict) and ans.get("dead"):
        return None
    bad = compare(obs, ans)
    if bad is None and extra is not None:
        bad = extra.concrete(ans, r)
    if bad is None:
        return None
    o, e, a = bad
    return Failure(f"{name} : {o}", f"{text!r}: {o} is {a!r}, expected {e!r}",
                   {"report": text, "class": r.what, "year": r.year, "month": r.month, "clock": req.get("clock"),
                    "observer": o,
                    "expected": repr(e), "actual": repr(a), "request": req})


def compare(obs, ans):
    if isinstance(ans["built"], Raised):
        return "construction", "a report", ans["built"].text
    if ans["printed"]:
        return "printed output", "", ans["printed"]
    for o, a in zip(obs, ans["values"]):
        if isinstance(a, Raised) or not all(bool(c) for c in agree(o.exp, a)):
            return o.path, show(o.exp), a
    return None


def concrete(rep, asg):
    """The same report with concrete groups."""
    from .grammar import G
    from .report import Rep

    def g_(g):
        n = G.__new__(G)
        n.kind, n.label = g.kind, g.label
        n.text = core.assign(g.text, asg)
        n.base = core.assign(g.base, asg)
        n.extra = core.assign(g.extra, asg)
        return n
    return Rep(rep.what, [g_(g) for g in rep.body], [[g_(g) for g in s] for s in rep.sections], rep.remark,
               core.assign(rep.year, asg), rep.month, core.assign(rep.clock, asg))


def battery(rep, name, keep, st, texts, extra, text, rng, n, truncate=False, **kw):
    """Bounded stand-in: n random instances on the plain code."""
    for _ in range(n):
        asg = {}
        for v in core.all_vars([text, rep.year, rep.clock]):
            asg[v] = v.dom[rng.randrange(len(v.dom))]
        st.bounded += 1
        fl = confirm(rep, name, keep, texts, extra, asg, None, st)
        if fl:
            return fl
    return None
