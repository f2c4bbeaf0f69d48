"""Dispatch of calls from instrumented code when arguments are symbolic."""
import builtins
import collections
import datetime as _dt
import functools
import json
import math
import operator
import re
import string as _string
import types

from . import core, dt, real, segs, strings
from .core import CTX, Lift, Unsupported, branch, is_sym, lift
from .strings import SymStr, mk

NATIVE = types.BuiltinFunctionType


class SymJson:
    """json.dumps of a value that contains symbolic parts."""

    def __init__(self, obj, args, kw):
        self.obj = obj
        self.kw = kw

    def __eq__(self, o):
        return isinstance(o, SymJson) and self.obj == o.obj

    def __hash__(self):
        return id(self)


def s_str(x):
    """str(x) that may be symbolic."""
    if isinstance(x, real.R):
        return real.Numeral("<number>", x)
    if isinstance(x, (str, SymStr)) and type(x) in (str, SymStr):
        return x
    if isinstance(x, str) and hasattr(x, "__pv_float__"):
        return x
    if isinstance(x, Lift):
        return lift(str, x)
    if isinstance(x, dt.SymDT):
        return x.text()
    if isinstance(x, dt.SymTD):
        return lift(str, x.full())
    if is_sym(x):
        raise Unsupported("str of " + type(x).__name__)
    if isinstance(x, (list, tuple, dict, set)) and core.deep_sym(x):
        raise Unsupported("str of a container")
    m = type(x).__str__
    if m is object.__str__:
        return s_repr(x)
    if isinstance(m, types.FunctionType):
        return m(x)
    return str(x)


def s_repr(x):
    if isinstance(x, (Lift, SymStr)):
        return lift(repr, x)
    m = type(x).__repr__
    if isinstance(m, types.FunctionType):
        return m(x)
    if core.deep_sym(x):
        raise Unsupported("repr")
    return repr(x)


def s_format(x, spec=""):
    if isinstance(x, real.R):
        return real.Numeral("<number>", x if not spec else None)
    if isinstance(x, real.Numeral):
        return x
    if not is_sym(x) and not is_sym(spec):
        m = type(x).__format__
        if isinstance(m, types.FunctionType):
            return m(x, spec)
        if m is object.__format__ and not spec:
            return s_str(x)
        if spec == "" and not isinstance(x, (int, float, str)):
            return s_str(x)
        return format(x, spec)
    if isinstance(x, dt.SymDT) and not is_sym(spec):
        return x.strftime(spec) if spec else x.text()
    if isinstance(x, dt.SymTD):
        x = x.full()
    if isinstance(x, (Lift, SymStr)):
        if not is_sym(spec) and not spec:
            return s_str(x)
        return lift(format, x, spec)
    return lift(lambda s: format(x, s), spec)


def fstr(*parts):
    if "segments" in CTX.hooks:
        return segs.fstr(parts)
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 115:
            v = s_str(v)
        elif conv in (114, 97):
            v = s_repr(v)
        out.append(s_format(v, spec))
    return mk_text(out)


def mk_text(out):
    if any(isinstance(p, real.Numeral) for p in out):
        return real.joined(out)
    return mk(out)


def str_format(fmt, a, k):
    if not core.deep_sym(a) and not core.deep_sym(k) and not any(_user(x) for x in list(a) + list(k.values())):
        return fmt.format(*a, **k)
    out = []
    auto = [0]

    def field(name):
        first, rest = _string._string.formatter_field_name_split(name)
        if first == "":
            first = auto[0]
            auto[0] += 1
        v = a[first] if isinstance(first, int) else k[first]
        for is_attr, i in rest:
            v = getattr(v, i) if is_attr else v[i]
        return v
    for lit, name, spec, conv in _string._string.formatter_parser(fmt):
        if lit:
            out.append(lit)
        if name is None:
            continue
        v = field(name)
        if conv == "s":
            v = s_str(v)
        elif conv in ("r", "a"):
            v = s_repr(v)
        if spec and "{" in spec:
            spec = str_format_nested(spec, field)
        out.append(s_format(v, spec))
    return mk_text(out)


def str_format_nested(spec, field):
    out = []
    for lit, name, sp, conv in _string._string.formatter_parser(spec):
        if lit:
            out.append(lit)
        if name is not None:
            out.append(s_format(field(name), sp or ""))
    return mk(out)


def _user(x):
    m = type(x)
    return isinstance(m.__str__, types.FunctionType) or isinstance(m.__format__, types.FunctionType)


def percent(fmt, args):
    if "segments" in CTX.hooks:
        return segs.wrap(operator.mod(fmt, args))
    if not isinstance(fmt, (str, SymStr)):
        return operator.mod(fmt, args)
    if isinstance(fmt, SymStr):
        fmt = core.concretize(fmt)
    if not core.deep_sym(args) and not _user(args) and not (
            isinstance(args, tuple) and any(_user(x) for x in args)):
        return fmt % args
    mapping = isinstance(args, dict)
    seq = list(args) if isinstance(args, tuple) else [args]
    out = []
    i = 0
    n = 0
    for m in re.finditer(r"%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(\.\d+)?([diouxXeEfFgGcrsa%])", fmt):
        out.append(fmt[i:m.start()])
        i = m.end()
        key, flags, width, prec, ty = m.groups()
        if ty == "%":
            out.append("%")
            continue
        if width == "*":
            raise Unsupported("% format")
        if mapping:
            v = args[key]
        else:
            if n >= len(seq):
                raise TypeError("not enough arguments for format string")
            v = seq[n]
            n += 1
        spec = "%" + flags + (width or "") + (prec or "") + ty
        if isinstance(v, (real.R, real.Numeral)):
            out.append(real.Numeral("<number>", None))
        elif ty == "s" and spec == "%s":
            out.append(s_str(v))
        elif is_sym(v):
            if isinstance(v, dt.SymDT):
                v = v.text()
            out.append(lift(lambda x, spec=spec: spec % (x,), v))
        else:
            out.append(spec % (s_str(v) if ty == "s" else v,))
    out.append(fmt[i:])
    if not mapping and n < len(seq):
        raise TypeError("not all arguments converted during string formatting")
    return mk_text(out)


# ---------------------------------------------------------------- type tests

def pytype(x):
    if isinstance(x, SymStr):
        return str
    if isinstance(x, dt.SymDT):
        return _dt.datetime
    if isinstance(x, dt.SymTD):
        return _dt.timedelta
    if isinstance(x, strings.SymMatch):
        return re.Match
    if isinstance(x, SymJson):
        return str
    if isinstance(x, Lift):
        return core.split_by(x, type)[0]
    h = getattr(type(x), "__pv_type__", None)
    if h is not None:
        return h
    return type(x)


def s_isinstance(x, t):
    if isinstance(x, Lift):
        return lift(lambda v: isinstance(v, t), x)
    if is_sym(x) or isinstance(x, (strings.SymMatch, SymJson)):
        p = pytype(x)
        try:
            return issubclass(p, t)
        except TypeError:
            return isinstance(p(), t)
    return isinstance(x, t)


def s_len(x):
    if isinstance(x, real.Numeral):
        return len(x)
    if isinstance(x, SymStr):
        return core.simp(x.length())
    if isinstance(x, Lift):
        return lift(len, x)
    m = type(x).__len__ if hasattr(type(x), "__len__") else None
    if isinstance(m, types.FunctionType):
        r = m(x)
        if is_sym(r):
            return r
    return len(x)


def s_round(x, n=None):
    if is_sym(x) and not isinstance(x, Lift):
        return x.__round__(n)
    return lift(lambda v: round(v) if n is None else round(v, n), x)


def s_int(x=0, *a):
    if hasattr(x, "__pv_int__"):
        return x.__pv_int__()
    if isinstance(x, (Lift, SymStr)):
        return lift(lambda v: int(v, *a), x)
    return int(x, *a)


def s_float(x=0.0):
    if hasattr(x, "__pv_float__"):
        return x.__pv_float__()
    if isinstance(x, (Lift, SymStr)):
        return lift(float, x)
    return float(x)


def s_bool(x=False):
    if isinstance(x, Lift):
        return lift(bool, x)
    return bool(x)


def s_abs(x):
    return abs(x)


def s_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def s_all(it):
    for x in it:
        if not x:
            return False
    return True


def s_any(it):
    for x in it:
        if x:
            return True
    return False


def _minmax(op):
    def f(*a, key=None, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if "default" in k:
                return k["default"]
            raise ValueError("min()/max() arg is an empty sequence")
        best = xs[0]
        for x in xs[1:]:
            p, q = (x, best) if key is None else (key(x), key(best))
            if op(p, q):
                best = x
        return best
    return f


def s_print(*a, **k):
    CTX.hooks.setdefault("printed", []).append(True)


def s_type(*a):
    if len(a) == 1:
        return pytype(a[0])
    return type(*a)


def s_str_call(x="", *a):
    if a:
        return str(x, *a)
    return s_str(x)


def s_getattr(o, n, *d):
    n = core.concretize(n) if is_sym(n) else n
    return getattr(o, n, *d)


def s_setattr(o, n, v):
    core.write()
    n = core.concretize(n) if is_sym(n) else n
    return setattr(o, n, v)


def s_dumps(obj, *a, **k):
    if core.deep_sym(obj, 12):
        return SymJson(obj, a, k)
    return json.dumps(obj, *a, **k)


LOCAL = _dt.timedelta(hours=13)         # the local time of the model is not UTC


def clock(name, a, k):
    c = CTX.hooks.get("clock")
    t = _dt.datetime.utcnow().replace(second=0, microsecond=0) if c is None else c()
    if name == "utcnow":
        return t
    tz = a[0] if a else k.get("tz")
    if tz is None:
        return t + LOCAL
    if tz is _dt.timezone.utc:
        return t
    raise Unsupported("clock of a time zone")


def s_map(f, *its):
    return iter([call(f, *xs) for xs in zip(*its)])


def s_filter(f, it):
    return iter([x for x in it if (x if f is None else call(f, x))])


def s_sorted(it, key=None, reverse=False):
    if key is not None:
        k0 = key
        key = lambda x: call(k0, x)
    return sorted(it, key=key, reverse=reverse)


def s_reduce(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = call(f, acc, x)
    return acc


def s_divmod(a, b):
    return (a // b, a % b)


def s_callable(x):
    return callable(x) and not isinstance(x, (Lift,))


ALWAYS = {
    builtins.isinstance: s_isinstance, builtins.len: s_len, builtins.str: s_str_call, builtins.print: s_print,
    builtins.type: s_type, builtins.repr: s_repr, builtins.format: s_format, builtins.sum: s_sum,
    builtins.all: s_all, builtins.any: s_any, builtins.min: _minmax(operator.lt), builtins.max: _minmax(operator.gt),
    builtins.map: s_map, builtins.filter: s_filter, builtins.sorted: s_sorted, functools.reduce: s_reduce,
    json.dumps: s_dumps,
}
ON_SYM = {
    builtins.int: s_int, builtins.float: s_float, builtins.bool: s_bool, builtins.round: s_round,
    builtins.abs: s_abs, builtins.getattr: s_getattr, builtins.setattr: s_setattr, builtins.divmod: s_divmod,
    builtins.callable: s_callable,
    _dt.datetime: dt.construct, _dt.timedelta: dt.timedelta,
    re.escape: lambda p: lift(re.escape, p),
}
LIFTED = {builtins.ord, builtins.chr, builtins.pow, math.floor, math.ceil, math.trunc, math.sqrt, math.radians,
          math.degrees, math.fabs, math.isclose, math.isnan, math.fmod, builtins.hex, builtins.bin, math.modf,
          operator.truth, math.copysign, math.isfinite, math.isinf}
RE_FUNCS = {re.match: strings.match, re.fullmatch: strings.fullmatch, re.search: strings.search,
            re.findall: strings.findall, re.finditer: strings.finditer}
CLOCKS = {"utcnow", "now", "today"}


def _tell(f, self, a, k):
    """Report a regular expression applied to a string without symbols."""
    try:
        if isinstance(self, re.Pattern) and f.__name__ in ("match", "fullmatch", "search"):
            CTX.hooks["re"](f.__name__, self, a[0] if a else k["string"])
        elif f in RE_FUNCS:
            kw = dict(zip(("pattern", "string", "flags"), a))
            kw.update(k)
            CTX.hooks["re"](f.__name__, strings.compile_(kw["pattern"], kw.get("flags", 0)), kw["string"])
    except (TypeError, KeyError, re.error):
        pass


def _re_call(f, a, k):
    """re.match(pattern, string, flags) and friends with symbolic arguments."""
    if any(isinstance(x, (real.R, real.Numeral)) for x in list(a) + list(k.values())):
        raise Unsupported("regular expression on a symbolic number")
    if f in RE_FUNCS:
        names = ("pattern", "string", "flags")
        kw = dict(zip(names, a))
        kw.update(k)
        p = strings.compile_(kw["pattern"], kw.get("flags", 0))
        return RE_FUNCS[f](p, kw["string"])
    if f in (re.sub, re.subn):
        kw = dict(zip(("pattern", "repl", "string", "count", "flags"), a))
        kw.update(k)
        p = strings.compile_(kw["pattern"], kw.get("flags", 0))
        r = strings.subn(p, kw["repl"], kw["string"], kw.get("count", 0))
        return r if f is re.subn else r[0]
    if f is re.split:
        kw = dict(zip(("pattern", "string", "maxsplit", "flags"), a))
        kw.update(k)
        p = strings.compile_(kw["pattern"], kw.get("flags", 0))
        return strings.split(p, kw["string"], kw.get("maxsplit", 0))
    if f is re.compile:
        return strings.compile_(*a, **k)
    return None


RE_ALL = set(RE_FUNCS) | {re.sub, re.subn, re.split, re.compile}


def _method(f, self, a, k):
    """Bound method of a native object with symbolic arguments."""
    n = f.__name__
    if isinstance(self, str):
        if n == "format":
            return str_format(self, a, k)
        if n == "format_map":
            return str_format(self, (), a[0])
        if n == "join":
            return SymStr((self,)).join(list(a[0])) if self else strings.mk_join(list(a[0]))
        if not any(is_sym(x) for x in a) and not k:
            return f(*a)
        if n in ("replace",):
            return SymStr((self,)).replace(*a, **k)
        return lift(lambda *b: getattr(self, n)(*b, **k), *a)
    if isinstance(self, re.Pattern) and n in strings.METHODS:
        if n in ("sub", "subn"):
            kw = dict(zip(("repl", "string", "count"), a))
            kw.update(k)
            return strings.METHODS[n](self, kw["repl"], kw["string"], kw.get("count", 0))
        return strings.METHODS[n](self, *a, **k)
    if isinstance(self, dict):
        if n == "get" and isinstance(a[0], (Lift, SymStr)):
            d = a[1] if len(a) > 1 else None
            if is_sym(d):
                if branch(contains(a[0], self)):
                    return getitem(self, a[0])
                return d
            if any(core.deep_sym(v) for v in self.values()):
                return f(core.concretize(a[0]), d)
            return lift(lambda x: self.get(x, d), a[0])
        if n in ("get", "pop", "setdefault", "__getitem__", "__contains__"):
            return f(core.concretize(a[0]), *a[1:], **k)
        return f(*a, **k)
    if isinstance(self, re.Match):
        return f(*[core.concretize(x) for x in a], **k)
    if isinstance(self, (list, set, collections.deque, bytearray, tuple, frozenset)):
        return f(*a, **k)
    if isinstance(self, (int, float)):
        return lift(lambda *b: getattr(self, n)(*b, **k), *a)
    if isinstance(self, _dt.datetime) and n == "replace":
        return dt.from_dt(self).replace(**k) if not a else f(*a, **k)
    return f(*a, **k)


MUTABLE = (list, dict, set, collections.deque, bytearray)
MUTATORS = {"append", "add", "pop", "remove", "clear", "extend", "insert", "sort", "reverse", "update",
            "setdefault", "popitem", "discard", "appendleft", "popleft", "__setitem__", "__delitem__"}


def call(f, *a, **k):
    if "segments" in CTX.hooks:
        r = segs.call(f, a, k)
        if r is not NotImplemented:
            return r
    # constructors and functions with symbolic-aware replacements
    try:
        r = ALWAYS.get(f)
    except TypeError:
        r = None
    if r is not None:
        return r(*a, **k)
    if isinstance(f, Lift):
        return call(core.concretize(f), *a, **k)
    if isinstance(f, functools._lru_cache_wrapper):
        return f.__wrapped__(*a, **k)
    if isinstance(f, functools.partial):
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    self = getattr(f, "__self__", None)
    if self is not None and isinstance(f, NATIVE):
        if isinstance(self, MUTABLE) and f.__name__ in MUTATORS:
            core.write()
        if self is _dt.datetime or self is _dt.date:
            if f.__name__ in CLOCKS:
                t = clock(f.__name__, a, k)
                return t if self is _dt.datetime else t.date()
            if f.__name__ == "strptime":
                return dt.strptime(*a, **k)
            if f.__name__ == "combine" and core.deep_sym(a):
                return dt.combine(*a)
        if isinstance(self, str) and f.__name__ in ("format", "format_map", "join"):
            return _method(f, self, a, k)
    sym = False
    for x in a:
        if is_sym(x):
            sym = True
            break
    if not sym:
        for x in k.values():
            if is_sym(x):
                sym = True
                break
    if not sym:
        if "re" in CTX.hooks:
            _tell(f, self, a, k)
        return f(*a, **k)
    try:
        if f in ON_SYM:
            return ON_SYM[f](*a, **k)
        if f in RE_ALL:
            return _re_call(f, a, k)
        if f in LIFTED:
            if any(isinstance(x, (real.R, real.RBool)) for x in a):
                if f in real.MATH:
                    return real.MATH[f](*a)
                raise Unsupported(f"{f.__name__} of a symbolic number")
            return lift(lambda *b: f(*b, **k), *a)
    except TypeError as e:
        if "unhashable" not in str(e):
            raise
    if self is not None and isinstance(f, (NATIVE, types.MethodWrapperType)):
        return _method(f, self, a, k)
    if isinstance(f, types.MethodDescriptorType):
        # str.strip(x), str.upper used as functions
        return getattr(a[0], f.__name__)(*a[1:], **k)
    return f(*a, **k)


def _mk_join(xs):
    out = []
    for x in xs:
        if isinstance(x, Lift):
            x = core.split_type(x)
        if not isinstance(x, (str, SymStr)):
            raise TypeError("sequence item: expected str instance, %s found" % type(x).__name__)
        out.append(x)
    return mk(out)


strings.mk_join = _mk_join


def getitem(o, i):
    if is_sym(o):
        return o[i]
    if isinstance(i, slice) and core.deep_sym([i.start, i.stop, i.step]):
        i = slice(*[None if x is None else core.concretize(x) for x in (i.start, i.stop, i.step)])
        return o[i]
    if is_sym(i):
        if type(o) in (dict, str, list, tuple) and isinstance(i, (Lift, SymStr)) and not core.deep_sym(o):
            return lift(lambda k: o[k], i)
        if type(o) in (dict, str, list, tuple):
            return o[core.concretize(i)]
    return o[i]


def contains(x, c):
    if isinstance(x, segs.Seg) and type(c) is str:
        raise segs.Cut("in")
    if is_sym(c):
        return c.__contains__(x)
    if isinstance(x, (Lift, SymStr)):
        if isinstance(c, (str, dict, set, frozenset, type({}.keys()), range)):
            return lift(lambda v: v in c, x)
        if isinstance(c, (list, tuple)) and not core.deep_sym(c):
            return lift(lambda v: v in c, x)
    elif isinstance(c, str) and is_sym(x) and not isinstance(x, str):
        raise TypeError("'in <string>' requires string as left operand")
    return x in c


def not_contains(x, c):
    r = contains(x, c)
    return lift(operator.not_, r) if isinstance(r, Lift) else not r


_NONE = {}


def _may_be_none(x):
    hit = _NONE.get(id(x.table))
    if hit is None:
        if len(_NONE) > 3000:
            _NONE.clear()
        hit = _NONE[id(x.table)] = (x.table, any(v is None for v in x.table.values()))
    return hit[1]


def is_(a, b):
    if a is None and isinstance(b, Lift):
        a, b = b, a
    if b is None and isinstance(a, Lift) and not _may_be_none(a):
        return False
    if isinstance(a, (Lift, SymStr)) and isinstance(b, (Lift, SymStr)):
        if a is b:
            return True
        return lift(operator.is_, a, b)
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        o = b if isinstance(a, SymStr) else a
        if not isinstance(o, str):
            return False
    if isinstance(a, (Lift, SymStr)) or isinstance(b, (Lift, SymStr)):
        if not isinstance(a, (Lift, SymStr)) and is_sym(a) or not isinstance(b, (Lift, SymStr)) and is_sym(b):
            return False
        return lift(operator.is_, a, b)
    return a is b


def is_not(a, b):
    r = is_(a, b)
    return lift(operator.not_, r) if isinstance(r, Lift) else not r


def not_(a):
    if isinstance(a, Lift):
        return lift(operator.not_, a)
    return not a
