"""Snapshots of object graphs: frame conditions of the code under verification."""
import datetime as dt
import functools
import re
import sys
import types

from pyvc import core
from pyvc.strings import SymStr

PRIM = (type(None), bool, int, float, complex, str, bytes, dt.datetime, dt.date, dt.timedelta, dt.time)
KEEP = []            # values whose identity is used in a snapshot


def ours(x):
    return (getattr(type(x), "__module__", "") or "").split(".")[0] == "aeromet_py"


class Snap:
    """Canonical image of the mutable state that can be reached from some roots."""

    def __init__(self, *roots, stop=()):
        self.seen = {}
        self.out = []
        self.keep = []
        self.stop = set(map(id, stop))
        self.objects = []       # the mutable objects
        for r in roots:
            self.visit(r, "")
        self.key = tuple(self.out)

    def emit(self, *x):
        self.out.append(x)

    def leaf(self, x):
        self.keep.append(x)
        self.emit("id", id(x))

    def visit(self, x, path):
        if isinstance(x, PRIM):
            self.emit(type(x).__name__, repr(x))
            return
        if isinstance(x, SymStr):
            self.emit("sym", tuple(p if isinstance(p, str) else id(p.table) for p in x.parts))
            self.keep.append(x)
            return
        if isinstance(x, core.Lift):
            self.keep.append(x)
            self.emit("lift", id(x.table))
            return
        if core.is_sym(x):
            d = getattr(x, "__dict__", None) or {n: getattr(x, n, None) for n in getattr(type(x), "__slots__", ())}
            self.emit("proxy", type(x).__name__)
            for n in sorted(d):
                self.visit(d[n], path)
            return
        if id(x) in self.seen:
            self.emit("ref", self.seen[id(x)])
            return
        if id(x) in self.stop:
            self.emit("stop")
            return
        if isinstance(x, (tuple, frozenset)):
            self.emit(type(x).__name__, len(x))
            for i in x if isinstance(x, tuple) else sorted(x, key=repr):
                self.visit(i, path)
            return
        self.seen[id(x)] = len(self.seen)
        self.keep.append(x)
        if isinstance(x, (list, dict, set, bytearray)) or type(x).__name__ in ("deque", "defaultdict", "OrderedDict",
                                                                               "Counter", "mappingproxy"):
            self.objects.append((x, path))
            if hasattr(x, "items"):
                self.emit(type(x).__name__, len(x))
                for k, v in list(x.items()):
                    self.visit(k, path)
                    self.visit(v, f"{path}[{k!r}]")
            else:
                self.emit(type(x).__name__, len(x))
                for i, v in enumerate(list(x) if not isinstance(x, set) else sorted(x, key=repr)):
                    self.visit(v, f"{path}[{i}]")
            return
        if isinstance(x, functools._lru_cache_wrapper):
            self.leaf(x)
            return
        if isinstance(x, types.FunctionType):
            self.emit("function", id(x.__code__))
            for n, v in (("defaults", x.__defaults__), ("kwdefaults", x.__kwdefaults__), ("dict", x.__dict__),
                         ("closure", tuple(self.cell(c) for c in x.__closure__ or ()))):
                self.visit(v, f"{path}.{n}")
            return
        if isinstance(x, (staticmethod, classmethod)):
            self.visit(x.__func__, path)
            return
        if isinstance(x, property):
            for f in (x.fget, x.fset, x.fdel):
                self.visit(f, path)
            return
        if isinstance(x, types.MethodType):
            self.emit("method")
            self.visit(x.__self__, path)
            self.visit(x.__func__, path)
            return
        if isinstance(x, type):
            if (x.__module__ or "").split(".")[0] != "aeromet_py":
                self.leaf(x)
                return
            self.emit("class", x.__qualname__)
            for n, v in sorted(x.__dict__.items()):
                if n in ("__dict__", "__weakref__", "__doc__", "__module__", "_abc_impl", "__abstractmethods__",
                         "__static_attributes__", "__firstlineno__", "__annotations__", "__parameters__",
                         "__orig_bases__", "__subclasshook__"):
                    continue
                if n == "__init__" and isinstance(v, types.FunctionType) and "aeromet_py" not in v.__module__:
                    continue
                self.emit("attr", n)
                self.visit(v, f"{path}.{n}")
            return
        if isinstance(x, types.ModuleType):
            self.leaf(x)
            return
        if ours(x):
            self.objects.append((x, path))
            self.emit("object", type(x).__qualname__)
            d = dict(getattr(x, "__dict__", {}))
            for c in type(x).__mro__:
                for n in getattr(c, "__slots__", ()) or ():
                    if isinstance(n, str) and hasattr(x, n):
                        d.setdefault(n, getattr(x, n))
            for n in sorted(d):
                self.emit("attr", n)
                self.visit(d[n], f"{path}.{n}")
            return
        if hasattr(x, "__length_hint__") and hasattr(x, "__next__"):
            self.emit("iterator", type(x).__name__, x.__length_hint__())
            return
        if isinstance(x, types.GeneratorType):
            self.emit("generator", x.gi_frame.f_lasti if x.gi_frame else None)
            return
        self.leaf(x)

    def cell(self, c):
        try:
            return c.cell_contents
        except ValueError:
            return "empty"


def package():
    """Snapshot of the state of the modules of the package."""
    mods = [m for n, m in sorted(sys.modules.items()) if n == "aeromet_py" or n.startswith("aeromet_py.")]
    roots = []
    for m in mods:
        roots.append({n: v for n, v in m.__dict__.items()
                      if not n.startswith("__") and not isinstance(v, types.ModuleType) and not big(v)})
    return Snap(*roots)


def big(v):
    """Constant tables that are too big to be walked each time (their length is kept)."""
    return isinstance(v, (list, dict)) and len(v) > 3000


def tables():
    """Identities of the rows of the big constant tables of the package."""
    out = set()
    for n, m in sys.modules.items():
        if n == "aeromet_py" or n.startswith("aeromet_py."):
            for v in m.__dict__.values():
                if big(v):
                    for x in v.values() if isinstance(v, dict) else v:
                        out.add(id(x))
    return out


def diff(a, b):
    """Where two snapshots differ."""
    if a.key == b.key:
        return None
    for i, (x, y) in enumerate(zip(a.out, b.out)):
        if x != y:
            at = [z[1] for z in a.out[:i] if z[0] in ("attr", "object")][-3:]
            return ".".join(map(str, at))
    return "length"


class Touched(core.Control):
    """A value that must not matter was used."""


def _touch(self, *a, **k):
    raise Touched()


class Poison:
    """Stands for any value of a location that must not matter."""
    __slots__ = ()


for _n in ("__eq__ __ne__ __lt__ __le__ __gt__ __ge__ __hash__ __bool__ __len__ __iter__ __getitem__ __contains__ "
           "__add__ __radd__ __mod__ __str__ __repr__ __format__ __call__ __getattr__ __iadd__ __int__ __float__ "
           "__index__ __next__").split():
    setattr(Poison, _n, _touch)


def places(x):
    """The attributes of an object."""
    d = dict(getattr(x, "__dict__", {}))
    for c in type(x).__mro__:
        for n in getattr(c, "__slots__", ()) or ():
            if isinstance(n, str) and hasattr(x, n):
                d.setdefault(n, getattr(x, n))
    return d


def shallow(snap):
    return [(x, places(x)) for x, _ in snap.objects if ours(x)]


def changed(objects):
    """The attributes that do not hold the same value as in shallow(), as (object, name, value)."""
    out = []
    for x, d in objects:
        now = places(x)
        for n in set(d) | set(now):
            a, b = d.get(n, out), now.get(n, out)
            if a is not b and not (isinstance(a, PRIM) and isinstance(b, PRIM) and type(a) is type(b) and a == b):
                out.append((x, n, a))
    return out


def has_poison(x, depth=3):
    if type(x) is Poison:
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(has_poison(i, depth - 1) for i in x)
    if depth and isinstance(x, dict):
        return any(has_poison(i, depth - 1) for i in x.values())
    return False
