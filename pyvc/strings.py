"""Symbolic strings and regular expressions.

A `SymStr` is a sequence of concrete chunks and of `Lift`s whose values are
strings.  Matching and searching are decided on representatives: the result of
a string operation or of a regular expression only depends on which of the
character classes mentioned by the operation each character belongs to, so the
real CPython operation is run once for each combination of classes and the path
is split where the outcomes differ.
"""
import itertools
import operator
import re
import string as _string

from . import core, rx
from .core import CTX, Lift, Unsupported, branch, choose, lift, wrap

CAP = 20000


class SymStr:
    __slots__ = ("parts", "_chars")

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SymStr):
                out.extend(p.parts)
            elif isinstance(p, str):
                if p:
                    if out and isinstance(out[-1], str):
                        out[-1] += p
                    else:
                        out.append(p)
            else:
                out.append(p)
        i = 0
        merged = []
        for p in out:
            if merged and isinstance(p, str) and isinstance(merged[-1], str):
                merged[-1] += p
            else:
                merged.append(p)
        self.parts = tuple(merged)
        self._chars = None

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "SymStr(" + " ".join(repr(p) if isinstance(p, str) else "?" + "".join(v.name for v in p.vars)
                                    for p in self.parts) + ")"

    # -- representation
    def to_lift(self):
        ls = [p for p in self.parts if isinstance(p, Lift)]
        if not ls:
            return "".join(self.parts)
        if len(self.parts) == 1:
            return self.parts[0]
        vs = tuple(sorted({v for p in ls for v in p.vars}, key=lambda v: v.id))
        rows = CTX.store.rows(vs)
        CTX.stats["rows"] += len(rows)
        gs = [(p, None) if isinstance(p, str) else (p.table, [vs.index(v) for v in p.vars]) for p in self.parts]
        t = {}
        for r in rows:
            t[r] = "".join(a if i is None else a[tuple([r[k] for k in i])] for a, i in gs)
        first = next(iter(t.values()))
        if all(v == first for v in t.values()):
            return first
        return Lift(vs, t)

    def chars(self):
        """List of single characters (splits on the lengths of the pieces)."""
        if self._chars is not None and self._chars[0] is CTX.store:
            return self._chars[1]
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.extend(p)
                continue
            by = _by_length(p)
            if len(by) > 1:
                groups = {}
                t = p.table
                for r in CTX.store.rows(p.vars):
                    groups.setdefault(len(t[r]), []).append(r)
                if len(groups) > 1:
                    n = choose([(k, CTX.store.restrict(p.vars, rows)) for k, rows in groups.items()])
                else:
                    n = next(iter(groups))
            else:
                n = next(iter(by))
            if n:
                out.extend(by[n])
        self._chars = (CTX.store, out)
        return out

    def length(self):
        n = 0
        for p in self.parts:
            if isinstance(p, str):
                n += len(p)
            else:
                n = n + lift(len, p)
        return n

    # -- operators
    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return mk((self, o))
        if isinstance(o, Lift):
            o = core.split_type(o)
            if isinstance(o, (str, SymStr)):
                return mk((self, o))
        if isinstance(o, Lift):
            raise TypeError("can only concatenate str")
        return NotImplemented if not core.is_sym(o) else self._bad(o)

    def _bad(self, o):
        raise Unsupported("string with " + type(o).__name__)

    def __radd__(self, o):
        if isinstance(o, str):
            return mk((o, self))
        return NotImplemented

    def __mul__(self, n):
        n = core.concretize(n)
        return mk((self,) * max(0, n))

    __rmul__ = __mul__

    def __mod__(self, a):
        from . import builtins_
        return builtins_.percent(self, a)

    def __bool__(self):
        for p in self.parts:
            if isinstance(p, str) and p:
                return True
        return any(branch(lift(lambda s: s != "", p)) for p in self.parts)

    def __hash__(self):
        return hash(core.concretize(self))

    def __str__(self):
        return core.concretize(self)

    def __format__(self, spec):
        return format(core.concretize(self), spec)

    def __index__(self):
        raise TypeError("'str' object cannot be interpreted as an integer")

    def __int__(self):
        return int(core.concretize(self))

    def __float__(self):
        return float(core.concretize(self))

    def __len__(self):
        return core.concretize(self.length())

    def __iter__(self):
        return iter([mk((c,)) for c in self.chars()])

    def __getitem__(self, i):
        cs = self.chars()
        if isinstance(i, slice):
            i = slice(*[None if k is None else core.concretize(k) for k in (i.start, i.stop, i.step)])
            return mk(cs[i])
        if isinstance(i, str):
            raise TypeError("string indices must be integers, not 'str'")
        i = operator.index(core.concretize(i))
        if not -len(cs) <= i < len(cs):
            raise IndexError("string index out of range")
        return mk((cs[i],))

    def __contains__(self, x):
        if isinstance(x, Lift):
            x = core.split_type(x)
        if isinstance(x, SymStr):
            return branch(lift(operator.contains, self, x))
        if not isinstance(x, str):
            raise TypeError("'in <string>' requires string as left operand")
        return self.find(x) >= 0

    def _cmp(self, o, op):
        if isinstance(o, (str, SymStr, Lift)):
            return lift(op, self, o)
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        r = eq(self, o)
        if r is NotImplemented:
            return r
        return lift(operator.not_, r) if isinstance(r, Lift) else not r

    # -- methods decided on character classes
    def _plan(self, f, args=(), preds=(), key=None):
        cs = self.chars()
        lits = set("".join(a for a in args if isinstance(a, str)))

        def sig(c):
            return (c if c in lits else None,) + tuple(p(c) for p in preds)
        return by_shadow(cs, sig, f, key and (key, args))

    def _sp(self, chars, left, right):
        if chars is not None:
            chars = core.concretize(chars)
        parts = list(self.parts)
        ok = True
        if right:
            parts, ok = _strip_parts(parts, chars, str.rstrip, 1)
        if ok and left:
            parts, ok = _strip_parts(parts[::-1], chars, str.lstrip, -1)
            parts = parts[::-1]
        if ok:
            return mk(parts)
        cs = self.chars()

        def f(s):
            a = len(s) - len(s.lstrip(chars)) if left else 0
            b = len(s.rstrip(chars)) if right else len(s)
            return (a, max(a, b))
        a, b = self._plan(f, (chars,), (str.isspace,), ("strip", left, right))
        return mk(cs[a:b])

    def strip(self, chars=None):
        return self._sp(chars, True, True)

    def lstrip(self, chars=None):
        return self._sp(chars, True, False)

    def rstrip(self, chars=None):
        return self._sp(chars, False, True)

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.startswith(q, *a) for q in p)
        if core.is_sym(p):
            return branch(lift(lambda s, q: s.startswith(q, *a), self, p))
        return self._plan(lambda s: s.startswith(p, *a), (p,), (), ("startswith", a))

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.endswith(q, *a) for q in p)
        if core.is_sym(p):
            return branch(lift(lambda s, q: s.endswith(q, *a), self, p))
        return self._plan(lambda s: s.endswith(p, *a), (p,), (), ("endswith", a))

    def find(self, p, *a):
        if core.is_sym(p):
            return core.concretize(lift(lambda s, q: s.find(q, *a), self, p))
        return self._plan(lambda s: s.find(p, *a), (p,), (), ("find", a))

    def rfind(self, p, *a):
        if core.is_sym(p):
            return core.concretize(lift(lambda s, q: s.rfind(q, *a), self, p))
        return self._plan(lambda s: s.rfind(p, *a), (p,), (), ("rfind", a))

    def index(self, p, *a):
        r = self.find(p, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, p, *a):
        r = self.rfind(p, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, p, *a):
        if core.is_sym(p):
            return core.concretize(lift(lambda s, q: s.count(q, *a), self, p))
        return self._plan(lambda s: s.count(p, *a), (p,), (), ("count", a))

    def _split(self, sep, maxsplit, right):
        cs = self.chars()
        if sep is not None:
            sep = core.concretize(sep)

        def f(s):
            if sep is not None and sep == "":
                raise ValueError("empty separator")
            pieces = (s.rsplit if right else s.split)(sep, maxsplit)
            spans = []
            if right:
                e = len(s)
                for p in reversed(pieces):
                    b = s.rindex(p, 0, e) if sep is None else e - len(p)
                    spans.append((b, b + len(p)))
                    e = b if sep is None else b - len(sep)
                spans.reverse()
            else:
                b = 0
                for p in pieces:
                    if sep is None:
                        b = s.index(p, b)
                    spans.append((b, b + len(p)))
                    b += len(p) + (len(sep) if sep is not None else 0)
            return tuple(spans)
        if sep == "":
            raise ValueError("empty separator")
        # whitespace split: locate pieces by scanning, not by content
        if sep is None:
            def f(s):
                spans = []
                i, n = 0, len(s)
                k = 0
                if right and maxsplit >= 0:
                    raise Unsupported("rsplit with limit")
                while i < n:
                    while i < n and s[i].isspace():
                        i += 1
                    if i >= n:
                        break
                    if 0 <= maxsplit <= k:
                        spans.append((i, len(s.rstrip()) if False else n))
                        break
                    j = i
                    while j < n and not s[j].isspace():
                        j += 1
                    spans.append((i, j))
                    k += 1
                    i = j
                return tuple(spans)
        spans = self._plan(f, (sep,), (str.isspace,), ("split", maxsplit, right))
        return [mk(cs[a:b]) for a, b in spans]

    def split(self, sep=None, maxsplit=-1):
        return self._split(sep, maxsplit, False)

    def rsplit(self, sep=None, maxsplit=-1):
        return self._split(sep, maxsplit, True)

    def splitlines(self, keepends=False):
        cs = self.chars()

        def f(s):
            out = []
            b = 0
            for l in s.splitlines(True):
                m = l.splitlines()[0] if not keepends else l
                out.append((b, b + len(m)))
                b += len(l)
            return tuple(out)
        nl = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"
        return [mk(cs[a:b]) for a, b in self._plan(f, (nl,))]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep):])

    def replace(self, old, new, count=-1):
        if isinstance(old, SymStr) and count != 0 and _extent(old.parts)[0] > 0:
            a, b = _uncommon(self, old, (0,))
            if b == "" and _extent(a.parts if isinstance(a, SymStr) else [a])[1] < _extent(old.parts)[0]:
                return mk((new, a))          # it begins with old, and the rest is too short to have it again
        cs = self.chars()
        old = core.concretize(old)
        if old == "":
            return lift(lambda s, n: s.replace(old, n, count), self, new)

        def f(s):
            pos = []
            i = 0
            while count < 0 or len(pos) < count:
                i = s.find(old, i)
                if i < 0:
                    break
                pos.append(i)
                i += len(old)
            return tuple(pos)
        pos = self._plan(f, (old,), (), ("replace", count))
        out = []
        b = 0
        for i in pos:
            out.extend(cs[b:i])
            out.append(new)
            b = i + len(old)
        out.extend(cs[b:])
        if isinstance(new, Lift):
            out = [core.split_type(p) if p is new else p for p in out]
        return mk(out)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:-len(p)] if p and self.endswith(p) else self

    def join(self, it):
        out = []
        for i, x in enumerate(it):
            if i:
                out.append(self)
            if isinstance(x, Lift):
                x = core.split_type(x)
            if not isinstance(x, (str, SymStr)):
                raise TypeError("sequence item: expected str instance")
            out.append(x)
        return mk(out)

    def format(self, *a, **k):
        from . import builtins_
        return builtins_.str_format(core.concretize(self), a, k)

    def zfill(self, n):
        return lift(lambda s, m: s.zfill(m), self, n)

    def encode(self, *a):
        return core.concretize(self).encode(*a)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(f"'str' object has no attribute '{name}'")
        m = getattr(str, name)
        if name.startswith("is"):
            if name in ("isdigit", "isalpha", "isspace", "isalnum", "isdecimal", "isnumeric", "isupper",
                        "islower", "isascii", "isprintable"):
                preds = (str.isdigit, str.isalpha, str.isspace, str.isalnum, str.isdecimal, str.isnumeric,
                         str.isupper, str.islower, str.isascii, str.isprintable)
                return lambda: self._plan(m, (), preds, name)
        if name in ("upper", "lower", "casefold", "swapcase"):
            def per_char():
                out = []
                for c in self.chars():
                    out.append(m(c) if isinstance(c, str) else lift(m, c))
                return mk(out)
            return per_char

        def generic(*a, **k):
            return lift(lambda s, *b: m(s, *b, **k), self, *a)
        return generic


core.PROXY_TYPES.append(SymStr)

_LENGTHS = {}


def _by_length(p):
    """{length: list of the characters of p, each a Lift or a str} (cached by table)."""
    hit = _LENGTHS.get(id(p.table))
    if hit is not None:
        return hit[1]
    by = {}
    for r, v in p.table.items():
        by.setdefault(len(v), []).append((r, v))
    out = {}
    for n, rows in by.items():
        cs = []
        for i in range(n):
            first = rows[0][1][i]
            if all(v[i] == first for _, v in rows):
                cs.append(first)
            else:
                cs.append(p if n == 1 and len(by) == 1 else Lift(p.vars, {r: v[i] for r, v in rows}))
        out[n] = cs
    if len(_LENGTHS) > 3000:
        _LENGTHS.clear()
    _LENGTHS[id(p.table)] = (p.table, out)
    return out


def _strip_parts(parts, chars, f, side):
    """Strip the end of a list of pieces without splitting the path."""
    while parts:
        p = parts[-1]
        if isinstance(p, str):
            q = f(p, chars)
            if q:
                return parts[:-1] + [q], True
            parts = parts[:-1]
            continue
        q = lift(lambda v: f(v, chars), p)
        if isinstance(q, str):
            parts = parts[:-1] + [q]
            continue
        q = q.parts[0]
        vals = q.values()
        if all(vals):
            return parts[:-1] + [q], True
        # sometimes empty: what comes before may have to be stripped then
        if len(parts) == 1:
            return [q], True
        o = parts[-2]
        if isinstance(o, str):
            h = f(o, chars)
            if h == o:
                return parts[:-1] + [q], True
            tail = o[len(h):] if side > 0 else o[:len(o) - len(h)]
            j = lift(lambda v: "" if not v else tail + v if side > 0 else v + tail, q)
            if isinstance(j, SymStr):
                j = j.parts[0]
            if h:
                return parts[:-2] + [h, j], True
            parts = parts[:-2] + [j]
            continue
        if _count(o, q) > 4000:
            return parts, False
        j = lift(lambda u, v: f(u + v if side > 0 else v + u, chars), o, q)
        if isinstance(j, SymStr):
            j = j.parts[0]
        parts = parts[:-2] + [j]
    return parts, True


def _count(*xs):
    vs = set()
    for x in xs:
        vs |= core.all_vars(x)
    n = 1
    for _, r in CTX.store.parts(tuple(sorted(vs, key=lambda v: v.id))):
        n *= len(r)
    return n


def mk(parts):
    s = SymStr([p if not isinstance(p, Lift) else _simp1(p) for p in parts])
    if all(isinstance(p, str) for p in s.parts):
        return "".join(s.parts)
    return s


def _simp1(p):
    t = p.table
    rows = CTX.store.rows(p.vars)
    first = t[rows[0]]
    for r in rows:
        if t[r] != first:
            return p
    return first


def eq(a, b):
    """Equality of a SymStr with anything."""
    if isinstance(b, Lift):
        return lift(operator.eq, a, b)
    if not isinstance(b, (str, SymStr)):
        if core.is_sym(b):
            return False
        return NotImplemented
    a, b = _uncommon(a, b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    pa = a.parts if isinstance(a, SymStr) else [a]
    pb = b.parts if isinstance(b, SymStr) else [b]
    (la, ha), (lb, hb) = _extent(pa), _extent(pb)
    if ha < lb or hb < la:
        return False
    for e in (0, -1):
        if isinstance(pa[e], str) and isinstance(pb[e], str) and pa[e] and pb[e] and pa[e][e] != pb[e][e]:
            return False
    vs = core.all_vars(a) | core.all_vars(b)
    n = 1
    for _, r in CTX.store.parts(tuple(sorted(vs, key=lambda v: v.id))):
        n *= len(r)
    if n <= 40000:
        return lift(operator.eq, a, b)
    ca = a.chars() if isinstance(a, SymStr) else list(a)
    cb = b.chars() if isinstance(b, SymStr) else list(b)
    if len(ca) != len(cb):
        return False
    for x, y in zip(ca, cb):
        if isinstance(x, str) and isinstance(y, str):
            if x != y:
                return False
    for x, y in zip(ca, cb):
        if x is y:
            continue
        if not (isinstance(x, str) and isinstance(y, str)):
            if not branch(lift(operator.eq, x, y)):
                return False
    return True


def _extent(parts):
    """Least and greatest length."""
    lo = hi = 0
    for p in parts:
        if isinstance(p, str):
            lo += len(p)
            hi += len(p)
        else:
            by = _by_length(p)
            lo += min(by)
            hi += max(by)
    return lo, hi


def _same_part(x, y):
    if x is y:
        return True
    if isinstance(x, Lift) and isinstance(y, Lift) and x.vars == y.vars:
        if x.table is y.table:
            return True
        try:
            return all(x.table[r] == y.table[r] for r in CTX.store.rows(x.vars))
        except KeyError:
            return False
    return False


def _expand(p, end):
    """Replace the piece at an end by its characters, when their number is fixed."""
    x = p[end]
    if isinstance(x, str):
        return False
    by = _by_length(x)
    if len(by) != 1:
        return False
    n, cs = next(iter(by.items()))
    if n < 2:
        return False
    if end == 0:
        p[0:1] = cs
    else:
        p[-1:] = cs
    return True


def _uncommon(a, b, ends=(0, -1)):
    """The strings without the pieces that they share at both ends."""
    pa = list(a.parts) if isinstance(a, SymStr) else [a]
    pb = list(b.parts) if isinstance(b, SymStr) else [b]
    for end in ends:
        while pa and pb:
            x, y = pa[end], pb[end]
            if isinstance(x, str) and isinstance(y, str):
                if x == y:
                    pa.pop(end)
                    pb.pop(end)
                    continue
                k = 0
                m = min(len(x), len(y))
                if end == 0:
                    while k < m and x[k] == y[k]:
                        k += 1
                    x, y = x[k:], y[k:]
                else:
                    while k < m and x[-1 - k] == y[-1 - k]:
                        k += 1
                    x, y = x[:len(x) - k], y[:len(y) - k]
                for q, z in ((pa, x), (pb, y)):
                    if z:
                        q[end] = z
                    else:
                        q.pop(end)
                if k == 0 or (x and y):
                    break
                continue
            if not _same_part(x, y):
                if _expand(pa, end) | _expand(pb, end):
                    continue
                break
            pa.pop(end)
            pb.pop(end)
    return mk(pa) if pa else "", mk(pb) if pb else ""


# ---------------------------------------------------------------- classes

_SHADOW = {}


def _groups_of(cs, sym):
    """Connected components of characters sharing related variables."""
    comps = []
    store = CTX.store
    for i in sym:
        vs = cs[i].vars
        gs = {id(store.grp(v)) for v in vs} if len(vs) > 1 else {id(store.grp(vs[0]))}
        merged = ([i], gs)
        rest = []
        for c in comps:
            if c[1] & merged[1]:
                merged = (c[0] + merged[0], c[1] | merged[1])
            else:
                rest.append(c)
        rest.append(merged)
        comps = rest
    return [sorted(c[0]) for c in comps]


def by_shadow(cs, sig, f, key=None):
    """Value of f on the string cs, splitting the path where it varies.

    f only depends on sig of each character, so it is evaluated on one
    representative of each combination of signatures (cached by key)."""
    comps = components(cs)
    if not comps:
        return f("".join(cs))
    base = list(cs)
    state = []
    for idxs, vs, t, _ in comps:
        k = key and (key, id(t))
        hit = _SIGMAPS.get(k) if k else None
        if hit is None:
            sigs = {}
            cache = {}
            for chs, rows in t.items():
                s = []
                for c in chs:
                    x = cache.get(c)
                    if x is None:
                        x = cache[c] = sig(c)
                    s.append(x)
                s = tuple(s)
                e = sigs.get(s)
                if e is None:
                    sigs[s] = (chs, list(rows))
                else:
                    e[1].extend(rows)
            if k:
                if len(_SIGMAPS) > 20000:
                    _SIGMAPS.clear()
                _SIGMAPS[k] = (t, sigs)
        else:
            sigs = hit[1]
        state.append((idxs, vs, sigs))
    # fork on the largest components until the combinations are few
    while True:
        n = 1
        for _, _, s in state:
            n *= len(s)
        if n <= CAP:
            break
        k = max(range(len(state)), key=lambda j: len(state[j][2]))
        idxs, vs, sigs = state[k]
        pick = choose([(s, CTX.store.restrict(vs, e[1])) for s, e in sigs.items()])
        state[k] = (idxs, vs, {pick: sigs[pick]})
    keys = [list(s[2]) for s in state]
    res = None
    if key is not None:
        pos = {}
        for j, (idxs, _, _) in enumerate(state):
            for i in idxs:
                pos[i] = j
        key = (key, "".join([c if isinstance(c, str) else "\0" for c in cs]), tuple(pos.items()),
               tuple([frozenset(k) for k in keys]))
        res = _SHADOW.get(key)
    if res is None:
        res = {}
        for combo in itertools.product(*keys):
            for (idxs, _, sigs), k in zip(state, combo):
                for i, ch in zip(idxs, sigs[k][0]):
                    base[i] = ch
            res[combo] = f("".join(base))
        CTX.stats["shadows"] = CTX.stats.get("shadows", 0) + len(res)
        vals = set(res.values())
        if len(vals) == 1:
            res = next(iter(vals)),
        if key is not None:
            _SHADOW[key] = res
    if isinstance(res, tuple):
        return res[0]
    node = _TREES.get(key) if key is not None else None
    if node is None:
        node = _tree(res, len(state))
        if key is not None:
            _TREES[key] = node
    while node[0] is not None:
        j, subs = node
        sigs = state[j][2]
        opts = []
        for n, (ks, _) in enumerate(subs):
            rows = [r for k in ks for r in sigs[k][1]]
            opts.append((n, CTX.store.restrict(state[j][1], rows)))
        node = subs[choose(opts)][1]
    return node[1]


def components(cs):
    """Independent sets of characters: (positions, vars, {chars: rows})."""
    sym = [i for i, c in enumerate(cs) if isinstance(c, Lift)]
    key = (CTX.store.ver, tuple([id(cs[i]) for i in sym]), tuple(sym))
    hit = _COMPS.get(key)
    if hit is not None:
        return hit[0]
    if not sym:
        return []
    out = []
    for idxs in _groups_of(cs, sym):
        vs = tuple(sorted({v for i in idxs for v in cs[i].vars}, key=lambda v: v.id))
        rows = CTX.store.rows(vs)
        gets = [(cs[i].table, None if cs[i].vars == vs else [vs.index(v) for v in cs[i].vars]) for i in idxs]
        t = {}
        for r in rows:
            chs = tuple([x[r] if ix is None else x[tuple([r[k] for k in ix])] for x, ix in gets])
            e = t.get(chs)
            if e is None:
                t[chs] = [r]
            else:
                e.append(r)
        out.append((tuple(idxs), vs, t, frozenset(t)))
    if len(_COMPS) > 2000:
        _COMPS.clear()
    _COMPS[key] = (out, [cs[i] for i in sym])
    return out


_COMPS = {}
_SIGMAPS = {}
_RX = {}


def by_regex(kind, pat, cs, f, key):
    """Result of a regular expression on cs, splitting the path where it varies."""
    comps = components(cs)
    if not comps:
        return f("".join(cs))
    fixed = [c if isinstance(c, str) else None for c in cs]
    k = (key, "".join([c if c is not None else "\0" for c in fixed]),
         tuple([(c[0], c[3]) for c in comps]))
    tree = _RX.get(k)
    if tree is None:
        try:
            tree = rx.partition(kind, pat, len(cs), fixed, [(c[0], list(c[2])) for c in comps], f)
        except rx.NotSupported as e:
            tree = e
        except RecursionError:
            tree = rx.NotSupported("recursion")
        if len(_RX) > 20000:
            _RX.clear()
        _RX[k] = tree
    if isinstance(tree, rx.NotSupported):
        return by_shadow(cs, regex_sig(pat), f, key)
    while tree[0] is not None:
        j, subs = tree
        _, vs, rows, _ = comps[j]
        opts = []
        for n, (ts, _) in enumerate(subs):
            opts.append((n, CTX.store.restrict(vs, [r for t in ts for r in rows.get(t, ())])))
        tree = subs[choose(opts)][1]
    return tree[1]



_TREES = {}


def _tree(res, n):
    """Decision tree over the components for the outcomes res."""
    vals = set(res.values())
    if len(vals) == 1:
        return (None, next(iter(vals)))
    for j in range(n):
        slices = {}
        for combo, v in res.items():
            slices.setdefault(combo[j], {})[combo[:j] + combo[j + 1:]] = v
        kinds = {}
        for k, sl in slices.items():
            kinds.setdefault(frozenset(sl.items()), []).append(k)
        if len(kinds) > 1:
            subs = []
            for ks in kinds.values():
                kset = set(ks)
                subs.append((ks, _tree({c: v for c, v in res.items() if c[j] in kset}, n)))
            return (j, subs)
    raise Unsupported("class split")


# ---------------------------------------------------------------- regex

_SIGS = {}


def regex_sig(pat):
    s = _SIGS.get((pat.pattern, pat.flags))
    if s is not None:
        return s
    from re import _parser, _constants as K
    sets = []
    bad = []

    def walk(node):
        for op, av in node:
            if op in (K.LITERAL, K.NOT_LITERAL):
                sets.append(lambda c, a=av: ord(c) == a)
            elif op is K.ANY:
                sets.append(lambda c: c == "\n")
            elif op is K.IN:
                for o, a in av:
                    if o is K.LITERAL:
                        sets.append(lambda c, a=a: ord(c) == a)
                    elif o is K.RANGE:
                        sets.append(lambda c, a=a: a[0] <= ord(c) <= a[1])
                    elif o is K.CATEGORY:
                        cat(a)
                    elif o is K.NEGATE:
                        pass
                    else:
                        bad.append(o)
            elif op is K.BRANCH:
                for b in av[1]:
                    walk(b)
            elif op is K.SUBPATTERN:
                walk(av[3])
            elif op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
                walk(av[2])
            elif op in (K.ASSERT, K.ASSERT_NOT):
                walk(av[1])
            elif op is K.ATOMIC_GROUP:
                walk(av)
            elif op is K.AT:
                sets.append(lambda c: c == "\n")
                sets.append(lambda c: c.isalnum() or c == "_")
            elif op is K.GROUPREF_EXISTS:
                walk(av[1])
                if av[2]:
                    walk(av[2])
            else:
                bad.append(op)

    def cat(a):
        n = str(a)
        if "DIGIT" in n:
            sets.append(lambda c: bool(re.match(r"\d", c)))
        elif "SPACE" in n:
            sets.append(lambda c: bool(re.match(r"\s", c)))
        elif "WORD" in n:
            sets.append(lambda c: bool(re.match(r"\w", c)))
        else:
            bad.append(a)

    walk(_parser.parse(pat.pattern, pat.flags))
    if bad or pat.flags & re.IGNORECASE:
        def sig(c):
            return c
    else:
        memo = {}

        def sig(c):
            v = memo.get(c)
            if v is None:
                v = memo[c] = tuple(p(c) for p in sets)
            return v
    _SIGS[(pat.pattern, pat.flags)] = sig
    return sig


class SymMatch:
    """A match object over a symbolic string."""

    def __init__(self, pat, subj, regs, lastindex):
        self.re = pat
        self.string = subj
        self.regs = regs
        self.pos = 0
        self.lastindex = lastindex
        self._cs = subj.chars() if isinstance(subj, SymStr) else list(subj)
        self.endpos = len(self._cs)

    def __deepcopy__(self, memo):
        return self

    @property
    def lastgroup(self):
        if self.lastindex is None:
            return None
        for n, i in self.re.groupindex.items():
            if i == self.lastindex:
                return n
        return None

    def _i(self, g):
        g = core.concretize(g)
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[g]
        if not 0 <= g < len(self.regs):
            raise IndexError("no such group")
        return g

    def _get(self, g, default=None):
        i = self._i(g)
        if i == 0 and self.regs[0] == (0, len(self._cs)):
            return self.string
        a, b = self.regs[i]
        if a < 0:
            return default
        return mk(self._cs[a:b])

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, len(self.regs)))

    def groupdict(self, default=None):
        return {n: self._get(n, default) for n in self.re.groupindex}

    def span(self, g=0):
        return self.regs[self._i(g)]

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def expand(self, t):
        return template(t, self)

    def __bool__(self):
        return True


def template(repl, m):
    if callable(repl):
        return repl(m)
    if isinstance(repl, Lift):
        repl = core.split_type(repl)
    if isinstance(repl, SymStr):
        if repl.find("\\") >= 0:
            repl = core.concretize(repl)
        else:
            return repl
    if "\\" not in repl:
        return repl
    out = []
    i = 0
    while i < len(repl):
        c = repl[i]
        if c != "\\":
            out.append(c)
            i += 1
            continue
        g = re.match(r"\\g<(\w+)>", repl[i:])
        d = re.match(r"\\([1-9]\d?)", repl[i:])
        if g:
            n = g.group(1)
            out.append(m._get(int(n) if n.isdigit() else n, "") or "")
            i += g.end()
        elif d:
            out.append(m._get(int(d.group(1)), "") or "")
            i += d.end()
        else:
            e = {"n": "\n", "t": "\t", "r": "\r", "\\": "\\", "f": "\f", "v": "\v", "a": "\a", "b": "\b"}.get(repl[i + 1: i + 2])
            if e is None:
                raise Unsupported("replacement template " + repl)
            out.append(e)
            i += 2
    return mk(out)


def _subject(s):
    if isinstance(s, Lift):
        s = core.split_type(s)
    if s is None or not isinstance(s, (str, SymStr)):
        raise TypeError("expected string or bytes-like object, got '%s'" % type(s).__name__)
    return s


def compile_(p, flags=0):
    if core.is_sym(p):
        p = core.concretize(p)
    if isinstance(p, re.Pattern):
        return p
    return re.compile(p, flags)


def _one(kind, pat, s, a):
    s = _subject(s)
    h = CTX.hooks.get("re")
    if h:
        h(kind, pat, s)
    if isinstance(s, str):
        return getattr(pat, kind)(s, *a)
    h = CTX.hooks.get("regex")
    if h:
        h(kind, pat, s)

    def f(x):
        m = getattr(pat, kind)(x, *a)
        return None if m is None else (m.regs, m.lastindex)
    if a:
        r = by_shadow(s.chars(), regex_sig(pat), f, (kind, pat.pattern, pat.flags, a))
    else:
        r = by_regex(kind, pat, s.chars(), f, (kind, pat.pattern, pat.flags))
    if r is None:
        return None
    return SymMatch(pat, s, r[0], r[1])


def match(pat, s, *a):
    return _one("match", pat, s, a)


def fullmatch(pat, s, *a):
    return _one("fullmatch", pat, s, a)


def search(pat, s, *a):
    return _one("search", pat, s, a)


def finditer_list(pat, s):
    s = _subject(s)
    if isinstance(s, str):
        return list(pat.finditer(s))

    def f(x):
        return tuple((m.regs, m.lastindex) for m in pat.finditer(x))
    r = by_regex("iter", pat, s.chars(), f, ("iter", pat.pattern, pat.flags))
    return [SymMatch(pat, s, a, b) for a, b in r]


def finditer(pat, s, *a):
    if a:
        raise Unsupported("finditer with positions")
    return iter(finditer_list(pat, s))


def findall(pat, s, *a):
    if a:
        raise Unsupported("findall with positions")
    out = []
    for m in finditer_list(pat, s):
        g = m.groups("")
        out.append(m.group() if not g else g[0] if len(g) == 1 else g)
    return out


@core.merge
def _never(pat, s):
    """False when no string of s has a match."""
    return bool(finditer_list(pat, s))


def subn(pat, repl, s, count=0):
    s = _subject(s)
    if isinstance(s, SymStr) and CTX.ex is not None:
        if _never(pat, s) is False:
            return s, 0
    cs = s.chars() if isinstance(s, SymStr) else list(s)
    out = []
    b = 0
    n = 0
    for m in finditer_list(pat, s):
        if count and n >= count:
            break
        n += 1
        out.extend(cs[b:m.start()])
        r = template(repl, m) if isinstance(m, SymMatch) else (
            repl(m) if callable(repl) else repl if isinstance(repl, SymStr) else m.expand(repl))
        if isinstance(r, Lift):
            r = core.split_type(r)
        out.append(r if r is not None else "")
        b = m.end()
    out.extend(cs[b:])
    return mk(out), n


def sub(pat, repl, s, count=0):
    return subn(pat, repl, s, count)[0]


def split(pat, s, maxsplit=0):
    s = _subject(s)
    cs = s.chars() if isinstance(s, SymStr) else list(s)
    out = []
    b = 0
    n = 0
    for m in finditer_list(pat, s):
        if maxsplit and n >= maxsplit:
            break
        n += 1
        out.append(mk(cs[b:m.start()]))
        out.extend(m.groups())
        b = m.end()
    out.append(mk(cs[b:]))
    return out


METHODS = {"match": match, "fullmatch": fullmatch, "search": search, "finditer": finditer,
           "findall": findall, "sub": sub, "subn": subn, "split": split}
