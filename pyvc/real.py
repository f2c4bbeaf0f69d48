"""Symbolic real and integer numbers: the values of a path are z3 terms.

Used for the functions whose contract is about every number (unit conversions,
compass points, capacities).  A comparison whose truth is not fixed by the path
condition splits the path; an obligation is proved when its negation has no
model under the path condition.  Floats are taken as the exact rational that
they denote and the arithmetic is that of the reals.
"""
import math
from fractions import Fraction

import z3

from . import core
from .core import CTX, Unsupported


class Path:
    """Path condition over numbers."""

    def __init__(self):
        self.cons = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)

    def add(self, c):
        self.cons.append(c)
        self.solver.add(c)

    def sat(self, c):
        r = self.solver.check(c)
        if r == z3.unknown:
            raise Unsupported("z3: unknown")
        return r == z3.sat

    def model(self, c):
        if not self.sat(c):
            return None
        return self.solver.model()


STATE = [Path()]
QUERIES = [0]


def start():
    STATE[0] = Path()
    return STATE[0]


def path():
    return STATE[0]


def branch(c):
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    p = path()
    ex = CTX.ex
    if ex is None:
        raise Unsupported("branch on a symbolic number outside of an exploration")
    if ex.pos < len(ex.prefix):
        v = ex.choose(None)
    else:
        QUERIES[0] += 2
        opts = [(b, CTX.store) for b in (True, False) if p.sat(c if b else z3.Not(c))]
        if not opts:
            raise core.PathKill()
        # both are recorded, so that a path is always replayed with the same decisions
        v = ex.choose(opts)
    p.add(c if v else z3.Not(c))
    return v


def val(x):
    """z3 term of a number, or None."""
    if isinstance(x, R):
        return x.t
    if isinstance(x, RBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            raise Unsupported("arithmetic with nan or inf")
        f = Fraction(x)
        return z3.Q(f.numerator, f.denominator)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    return None


def real(t):
    return z3.ToReal(t) if t.is_int() else t


def is_int(x):
    return isinstance(x, (RInt, RBool, int))


def make(t, int_):
    t = z3.simplify(t)
    return RInt(t) if int_ else RFloat(t)


class R:
    """A symbolic number."""

    def __init__(self, t):
        self.t = t

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __hash__(self):
        raise Unsupported("hash of a symbolic number")

    def __bool__(self):
        return branch(self.t != 0)

    def __repr__(self):
        return f"<{self.t}>"

    def __str__(self):
        raise Unsupported("text of a symbolic number")

    __format__ = __str__

    def __int__(self):
        raise Unsupported("int of a symbolic number")

    __float__ = __int__

    def __pv_float__(self):
        return RFloat(real(self.t))

    def __pv_int__(self):
        return self.__trunc__()

    def __trunc__(self):
        if self.t.is_int():
            return RInt(self.t)
        return make(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)), True)

    def __floor__(self):
        return make(self.t if self.t.is_int() else z3.ToInt(self.t), True)

    def __ceil__(self):
        return make(self.t if self.t.is_int() else -z3.ToInt(-self.t), True)

    def __round__(self, n=None):
        if n is None or n == 0 or not isinstance(n, int):
            n = n or 0
        if self.t.is_int() and n >= 0:
            return self
        k = Fraction(10) ** n
        r = z3.FreshInt("round")
        d = self.t * val(k) - z3.ToReal(r)
        half = z3.Q(1, 2)
        path().add(z3.And(d <= half, d >= -half))
        if n == 0 and not isinstance(self, RInt):
            return RInt(r)
        return make(z3.ToReal(r) / val(k), isinstance(self, RInt))

    def __abs__(self):
        return make(z3.If(self.t >= 0, self.t, -self.t), isinstance(self, RInt))

    def __neg__(self):
        return make(-self.t, isinstance(self, RInt))

    def __pos__(self):
        return self

    def __index__(self):
        if not isinstance(self, RInt):
            raise TypeError("'float' object cannot be interpreted as an integer")
        for _ in range(400):
            m = path().model(z3.BoolVal(True))
            if m is None:
                raise core.PathKill()
            v = m.eval(self.t, model_completion=True).as_long()
            ex = CTX.ex
            if ex is not None and ex.pos < len(ex.prefix):
                # the value tried at this point of the path was recorded
                v = ex.prefix[ex.pos][0][1]
                b, _ = ex.choose(None)
            else:
                opts = [((True, v), CTX.store)]
                if path().sat(self.t != v):
                    opts.append(((False, v), CTX.store))
                b, _ = core.choose(opts) if len(opts) == 1 else ex.choose(opts)
                if len(opts) == 1:
                    path().add(self.t == v)
                    return v
            path().add(self.t == v if b else self.t != v)
            if b:
                return v
        raise Unsupported("too many values of a symbolic integer")

    @property
    def real(self):
        return self

    def is_integer(self):
        return RBool(real(self.t) == z3.ToReal(z3.ToInt(real(self.t))))


class RFloat(R):
    __pv_type__ = float


class RInt(R):
    __pv_type__ = int


def _arith(name, f, int_ok=True):
    def g(self, o):
        b = val(o)
        if b is None:
            return NotImplemented
        return f(self.t, b, int_ok and is_int(self) and is_int(o))

    def rg(self, o):
        b = val(o)
        if b is None:
            return NotImplemented
        return f(b, self.t, int_ok and is_int(self) and is_int(o))
    setattr(R, f"__{name}__", g)
    setattr(R, f"__r{name}__", rg)


def _div(a, b, i):
    if branch(b == 0):
        raise ZeroDivisionError("division by zero")
    return make(real(a) / real(b), False)


def _fdiv(a, b):
    if branch(b == 0):
        raise ZeroDivisionError("division by zero")
    return z3.ToInt(real(a) / real(b))


def _floordiv(a, b, i):
    q = _fdiv(a, b)
    return make(q if i else z3.ToReal(q), i)


def _mod(a, b, i):
    q = _fdiv(a, b)
    return make(a - b * q if i else real(a) - real(b) * z3.ToReal(q), i)


def _pow(a, b, i):
    b = z3.simplify(b)
    if z3.is_int_value(b) and 0 <= b.as_long() <= 6:
        r = z3.IntVal(1) if i else z3.RealVal(1)
        for _ in range(b.as_long()):
            r = r * a
        return make(r, i)
    raise Unsupported("power of a symbolic number")


_arith("add", lambda a, b, i: make(a + b, i))
_arith("sub", lambda a, b, i: make(a - b, i))
_arith("mul", lambda a, b, i: make(a * b, i))
_arith("truediv", _div)
_arith("floordiv", _floordiv)
_arith("mod", _mod)
_arith("pow", _pow)


def _cmp(name, f, other=NotImplemented):
    def g(self, o):
        b = val(o)
        if b is None:
            return other
        return RBool(f(self.t, b))
    setattr(R, f"__{name}__", g)


_cmp("lt", lambda a, b: a < b)
_cmp("le", lambda a, b: a <= b)
_cmp("gt", lambda a, b: a > b)
_cmp("ge", lambda a, b: a >= b)
_cmp("eq", lambda a, b: a == b)
_cmp("ne", lambda a, b: a != b)


class RBool:
    """A symbolic truth value."""
    __pv_type__ = bool

    def __init__(self, t):
        self.t = t

    def __deepcopy__(self, memo):
        return self

    def __bool__(self):
        return branch(self.t)

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __pv_int__(self):
        return int(bool(self))

    def __pv_float__(self):
        return float(bool(self))

    def __and__(self, o):
        return bool(self) & o

    def __or__(self, o):
        return bool(self) | o

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__
    __rand__ = __and__
    __ror__ = __or__


class Numeral(str):
    """The text of a symbolic number: only float() reads it."""
    __pv_type__ = str

    def __new__(cls, text, number):
        s = str.__new__(cls, text)
        s.number = number
        return s

    def __pv_float__(self):
        if self.number is None:
            raise Unsupported("float of a text with a symbolic number")
        return self.number

    def __pv_int__(self):
        raise Unsupported("int of the text of a symbolic number")

    def strip(self, *a):
        return self

    lstrip = rstrip = strip

    def upper(self):
        return self

    lower = upper

    def replace(self, *a):
        return self

    def _no(self, *a, **k):
        raise Unsupported("text operation on a symbolic number")

    __add__ = __radd__ = __mul__ = __mod__ = __getitem__ = __iter__ = split = rsplit = partition = _no
    removeprefix = removesuffix = zfill = ljust = rjust = center = join = _no
    startswith = endswith = find = index = count = isdigit = isnumeric = isdecimal = isalpha = translate = _no

    def __float__(self):
        raise Unsupported("float of the text of a symbolic number")


def joined(parts):
    """The parts of a text, some of them with symbolic numbers."""
    parts = [p for p in parts if type(p) is not str or p]
    return parts[0] if len(parts) == 1 else Numeral("<text>", None)


core.PROXY_TYPES += [R, RBool, Numeral]

PI = math.pi


def _num(x):
    return isinstance(x, (R, RBool, int, float))


MATH = {
    math.floor: lambda x: x.__floor__(), math.ceil: lambda x: x.__ceil__(), math.trunc: lambda x: x.__trunc__(),
    math.fabs: lambda x: abs(x) * 1.0, math.radians: lambda x: x * (PI / 180), math.degrees: lambda x: x * (180 / PI),
    math.isnan: lambda x: False, math.isinf: lambda x: False, math.isfinite: lambda x: True,
    math.fmod: lambda a, b: a - b * (a / b).__trunc__(),
}


def number(name, int_=False):
    """A new symbolic number."""
    return RInt(z3.Int(name)) if int_ else RFloat(z3.Real(name))


def prove(c, extra=()):
    """None when c holds on every model of the path condition, else a model of its negation."""
    QUERIES[0] += 1
    return path().model(z3.Not(c))


def smt2(c):
    """The obligation as a script, for another solver."""
    s = z3.Solver()
    s.add(*path().cons)
    s.add(z3.Not(c))
    return s.to_smt2()


def value(m, x):
    """Number that x has in the model."""
    v = m.eval(x.t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    return Fraction(v.numerator_as_long(), v.denominator_as_long())
