"""C06 and C22: every number, by symbolic arithmetic on the numeric classes; and every reported number."""
import os
import random
import time
from fractions import Fraction

import z3

from contracts import contexts as cx
from contracts import prove, units
from contracts.prove import PLAIN, Failure, Raised
from pyvc import core, real
from pyvc.core import CTX, Explorer, Unsupported

from . import common
from .common import Check, Task
from .defs import CHECKS, header_shapes, light_tasks, report_task

SMT = "z3 (linear arithmetic over the reals)"
CVC5 = "cvc5 (same obligations)"


def classes():
    import importlib
    return importlib.import_module("aeromet_py.reports.models.base")


def conversions():
    import importlib
    return importlib.import_module("aeromet_py.utils").Conversions


def explore(fn, st):
    """Paths of fn over symbolic numbers."""
    CTX.hooks["real"] = True
    try:
        def run():
            real.start()
            return fn()
        for r in Explorer().run(run):
            st.paths += 1
            yield r
    finally:
        CTX.hooks.pop("real", None)


def decide(st, cond):
    """Proves cond on this path; a model of its negation or None."""
    t0 = time.time()
    m = real.prove(cond)
    st.decided(SMT, ok=m is None)
    if m is None and os.environ.get("VERIF_TIER") == "thorough":
        r = cvc5(real.smt2(cond))
        if r == "unsat":
            st.backends[CVC5] = st.backends.get(CVC5, 0) + 1
        elif r == "sat":
            raise Unsupported("z3 and cvc5 disagree")
    st.time += time.time() - t0
    return m


def cvc5(text):
    import cvc5 as c
    try:
        s = c.Solver()
        s.setOption("tlimit", "20000")
        p = c.InputParser(s)
        p.setStringInput(c.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + text, "o")
        sm = p.getSymbolManager()
        out = None
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = str(cmd.invoke(s, sm)).strip() or out
        return out
    except Exception as e:
        return f"error {e}"


def near(e, a):
    """Condition under which the term a is e."""
    d = a - e
    tol = z3.If(e >= 0, e, -e) * real.val(units.REL) + real.val(units.ABS)
    return z3.And(d <= tol, -d <= tol)


def numeral(cls, x):
    return real.Numeral("777" if cls != "Distance" else "7777", x)


def ask(cls, value, attrs):
    return PLAIN.ask({"op": "number", "cls": cls, "value": None if value is None else float(value), "attrs": attrs})


def replay(name, cls, value, attr, good, st):
    """Failure when the plain class does not satisfy good(base, value of attr)."""
    base = units.UNITS[cls][0]
    a = ask(cls, value, [base, attr])
    st.samples += 1
    if isinstance(a, dict):
        return None
    b, v = a
    if good(b, v):
        return None
    return Failure(f"{name} : {attr}", f"{cls} of {value}: {attr} is {v!r} when {base} is {b!r}",
                   {"class": cls, "value": None if value is None else float(value), "attribute": attr,
                    "actual": repr(v), base: repr(b)})


def unit_good(cls, attr):
    a, c = units.UNITS[cls][1][attr]

    def good(b, v):
        if isinstance(b, Raised) or isinstance(v, Raised):
            return False
        if b is None:
            return v is None
        return units.near(a * Fraction(b) + c, v)
    return good


SAMPLES = [0.0, 1.0, -1.0, 0.5, 10.0, 45.0, 60.0, 90.0, 359.0, 360.0, 999.0, 1013.25, 9999.0, -273.15, -40.0, 1e-6, 1e6]


def unit_task(cls, attr):
    name = f"{cls}.{attr} for every number"
    a, c = units.UNITS[cls][1][attr]
    base = units.UNITS[cls][0]

    def run(st):
        st.names.add(name)
        k = getattr(classes(), cls)
        x = real.number("x")

        def body():
            try:
                o = k(numeral(cls, x))
                b = getattr(o, base)
            except Exception as e:
                raise Unsupported(f"{type(e).__name__}: {e}")
            if not isinstance(b, real.R):
                raise Unsupported(f"{base} is {b!r}")
            try:
                v = getattr(o, attr)
            except Exception as e:
                v = Raised(e)
            t = None if isinstance(v, Raised) or v is None or isinstance(v, (str, real.RBool)) else real.val(v)
            if t is None:
                cond = z3.BoolVal(False)
            else:
                cond = near(real.val(b) * real.val(a) + real.val(c), real.real(t))
            m = decide(st, cond)
            return None if m is None else real.value(m, x)
        for bad in explore(body, st):
            if bad is None:
                continue
            # a larger number shows better what a smaller one does
            for w in (bad, bad * 10, 100, 7):
                f = replay(name, cls, w, attr, unit_good(cls, attr), st)
                if f:
                    return f
            raise Unsupported(f"{attr}: the failure at {bad} does not replay on the plain code")
        return concrete(st)

    def concrete(st, n=0):
        # missing and zero
        r = common.rng(name)
        for v in [None, 0.0] + (SAMPLES + [r.uniform(-500, 5000) for _ in range(n)] if n else []):
            f = replay(name, cls, v, attr, unit_good(cls, attr), st)
            if f:
                return f
        return None
    return Task(name, run, lambda st: concrete(st, 60))


def convert_task(fn):
    name = f"Conversions.{fn} for every number"
    a, c = units.FUNCTIONS[fn]

    def good(v, r):
        return not isinstance(r, Raised) and units.near(a * Fraction(v) + c, r)

    def back(v, st):
        r = PLAIN.ask({"op": "conversion", "name": fn, "value": float(v)})
        st.samples += 1
        if isinstance(r, dict) or r == "absent" or good(float(v), r):
            return None
        return Failure(name, f"{fn}({float(v)}) is {r!r}", {"function": fn, "value": float(v), "actual": repr(r)})

    def run(st):
        st.names.add(name)
        f = getattr(conversions(), fn, None)
        if f is None:
            return None
        x = real.number("x")

        def body():
            try:
                r = f(x)
            except Exception as e:
                r = Raised(e)
            t = None if isinstance(r, Raised) or r is None else real.val(r)
            m = decide(st, z3.BoolVal(False) if t is None else
                       near(x.t * real.val(a) + real.val(c), real.real(t)))
            return None if m is None else real.value(m, x)
        for bad in explore(body, st):
            if bad is not None:
                for w in (bad, 100):
                    fl = back(w, st)
                    if fl:
                        return fl
                raise Unsupported(f"{fn}: the failure at {bad} does not replay on the plain code")
        return back(0.0, st)

    def standin(st):
        for v in SAMPLES:
            fl = back(v, st)
            if fl:
                return fl
        return None
    return Task(name, run, standin)


def factors(st):
    c = conversions()
    for n, e in units.FACTORS.items():
        v = getattr(c, n, None)
        if v is None:
            continue
        ok = units.near(e, v)
        st.decided("exact rational arithmetic", ok=ok)
        if not ok:
            r = PLAIN.ask({"op": "conversion", "name": n, "value": None})
            if not units.near(e, r):
                return Failure(f"Conversions.{n}", f"Conversions.{n} is {r!r}, expected {float(e)}", {"name": n, "actual": repr(r)})
    return None


NUMERIC = {"wind", "wind_variation", "vis", "minvis", "rvr", "cloud", "temps", "pressure", "sea", "ttemp"}


def is_unit(o):
    a = o.attr or ""
    return o.kind in NUMERIC and (a.startswith("in_") or "_in_" in a)


def c22(tier):
    for cls, (_, us) in units.UNITS.items():
        for u in us:
            yield unit_task(cls, u)
    for f in units.FUNCTIONS:
        yield convert_task(f)
    yield Task("factors of Conversions", factors)
    yield from light_tasks(tier, [k for k in cx.grammar.KINDS if k in NUMERIC], is_unit, small=True)
    for t in header_shapes():
        if "temperatures" in t[0]:
            yield report_task(t[0], t[1], is_unit)


CHECKS["C22"] = Check(c22, explanation="each unit of each numeric class, the conversion functions and the factors, for every real "
                      "number (z3, floats taken as exact rationals); missing and zero; and every unit of every group of the "
                      "shapes named, for each of the numbers that can be reported",
                      assumptions=["float arithmetic is taken as arithmetic of reals in the obligations about every number "
                                   "(the relative error of a float operation, 1e-16, is far under the tolerance, 1e-5)"])


# ------------------------------------------------------------------ C06

def point_good(b, v):
    if isinstance(b, Raised) or isinstance(v, Raised):
        return False
    if b is None:
        return v is None
    if not 0 <= b <= 360:
        return True
    return v == point_of(Fraction(b))


def point_of(x):
    return units.POINTS[int(((x + Fraction(45, 4)) % 360) // Fraction(45, 2))]


def cardinal_task(lo, hi):
    name = f"Direction.cardinal for every number from {lo} to {hi}"

    def back(v, st):
        return replay(name, "Direction", v, "cardinal", point_good, st)

    def run(st):
        st.names.add(name)
        k = getattr(classes(), "Direction")
        x = real.number("x")

        def body():
            real.path().add(z3.And(x.t >= lo, x.t <= hi))
            try:
                o = k(numeral("Direction", x))
                b = o.in_degrees
            except Exception as e:
                raise Unsupported(f"{type(e).__name__}: {e}")
            if not isinstance(b, real.R):
                raise Unsupported(f"in_degrees is {b!r}")
            try:
                v = o.cardinal
            except Exception as e:
                v = Raised(e)
            inside = z3.And(b.t >= 0, b.t <= 360)
            if isinstance(v, str) and v in units.POINTS:
                l, h = units.sector(v)
                l, h = real.val(l), real.val(h)
                cond = z3.Or(b.t >= l, b.t < h) if v == "N" else z3.And(b.t >= l, b.t < h)
                cond = z3.Implies(inside, cond)
            else:
                cond = z3.Not(inside)
            m = decide(st, cond)
            return None if m is None else real.value(m, x)
        for bad in explore(body, st):
            if bad is not None:
                f = back(bad, st)
                if f:
                    return f
                raise Unsupported(f"the failure at {bad} does not replay on the plain code")
        return None

    def standin(st):
        r = common.rng(name)
        for v in [i * 11.25 for i in range(33)] + list(range(361)) + [r.uniform(0, 360) for _ in range(100)]:
            st.bounded += 1
            f = back(v, st)
            if f:
                return f
        return None
    return Task(name, run, standin)


def names_task(st):
    """from_cardinal of the sixteen points, and the codes without direction (finite: all of them)."""
    a = PLAIN.ask({"op": "points", "names": units.POINTS})
    k = getattr(classes(), "Direction")
    for n, p in zip(units.POINTS, a):
        try:
            v = k.from_cardinal(n).cardinal
        except Exception as e:
            v = Raised(e)
        st.decided("evaluation (finite)", ok=v == n)
        if v != n or p != n:
            return Failure(f"Direction.from_cardinal({n})", f"the compass point of Direction.from_cardinal({n!r}) is {p!r}",
                           {"name": n, "actual": repr(p)})
    for code in (None, "///", "//", "VRB"):
        try:
            v = k(code).cardinal
        except Exception as e:
            v = Raised(e)
        st.decided("evaluation (finite)", ok=v is None)
        if v is not None:
            return Failure(f"Direction({code!r}).cardinal", f"the compass point of Direction({code!r}) is {v!r}",
                           {"code": code, "actual": repr(v)})
    return None


def c06(tier):
    for i in range(0, 360, 90):
        yield cardinal_task(i, i + 90)
    yield Task("from_cardinal and unknown directions", names_task)
    keep = lambda o: "cardinal" in (o.attr or "")
    yield from light_tasks(tier, ["wind", "wind_variation", "vis", "minvis"], keep, small=True)


CHECKS["C06"] = Check(c06, explanation="Direction.cardinal for every real number from 0 to 360 against the sectors (z3), "
                      "from_cardinal for the sixteen points, and the compass point of every direction that can be reported in "
                      "wind, wind variation and visibility groups",
                      assumptions=["the bounds of the sectors are multiples of 11.25, exact as floats, and only compared"])
