"""Finite-domain symbolic values, path conditions and path exploration.

A `Var` ranges over a finite tuple of Python values.  The path condition
(`Store`) keeps, for each group of related variables, the explicit set of
allowed rows.  A `Lift` is a value that depends on some variables: an explicit
table from rows to ordinary CPython values, so each operation on it is the real
CPython operation (IEEE floats included) applied to every row.
"""
import itertools
import operator
import random
import time

MAX_ROWS = 400_000


class Control(BaseException):
    pass


class Unsupported(Control):
    """The engine cannot decide this path: never reported as a violation."""


class PathKill(Control):
    """The path is infeasible or has been cut."""


class OutOfTime(Control):
    pass


class Restart(Control):
    """A function merged so far turned out to have side effects."""


class Var:
    __slots__ = ("id", "name", "dom", "info")
    _n = 0

    def __init__(self, name, dom, info=None):
        Var._n += 1
        self.id = Var._n
        self.name = name
        self.dom = tuple(dom)
        self.info = info

    def __repr__(self):
        return f"<{self.name}:{len(self.dom)}>"

    def __deepcopy__(self, memo):
        return self


class Grp:
    __slots__ = ("vars", "rows")

    def __init__(self, vars, rows):
        self.vars = vars
        self.rows = rows


class Store:
    __slots__ = ("d", "cache", "ver")

    _n = 0

    def __init__(self, d, ver=None):
        self.d = d
        self.cache = {}
        if ver is None:
            Store._n += 1
            ver = Store._n
        self.ver = ver

    def grp(self, v):
        g = self.d.get(v)
        if g is None:
            g = Grp((v,), [(x,) for x in v.dom])
            self.d[v] = g
        return g

    def parts(self, vars):
        """Independent groups restricted to vars: list of (vars, projected rows)."""
        seen = []
        for v in vars:
            g = self.grp(v)
            for s in seen:
                if s[0] is g:
                    s[1].append(v)
                    break
            else:
                seen.append((g, [v]))
        out = []
        for g, vs in seen:
            vs = tuple(sorted(vs, key=lambda v: v.id))
            key = (id(g), vs)
            rows = self.cache.get(key)
            if rows is None:
                if vs == g.vars:
                    rows = g.rows
                else:
                    idx = [g.vars.index(v) for v in vs]
                    rows = list(dict.fromkeys(tuple(r[i] for i in idx) for r in g.rows))
                self.cache[key] = rows
            out.append((vs, rows))
        return out

    def rows(self, vars):
        """All allowed rows for vars (a tuple sorted by id)."""
        rows = self.cache.get(vars)
        if rows is not None:
            return rows
        parts = self.parts(vars)
        if len(parts) == 1:
            rows = parts[0][1]
        else:
            n = 1
            for _, r in parts:
                n *= len(r)
            if n > MAX_ROWS:
                raise Unsupported(f"table of {n} rows over {[v.name for v in vars]}")
            pos = {}
            k = 0
            for vs, _ in parts:
                for v in vs:
                    pos[v] = k
                    k += 1
            perm = [pos[v] for v in vars]
            rows = []
            for combo in itertools.product(*[r for _, r in parts]):
                flat = [x for t in combo for x in t]
                rows.append(tuple(flat[i] for i in perm))
        self.cache[vars] = rows
        return rows

    def restrict(self, vars, rows):
        """New store in which vars take only one of rows."""
        parts = self.parts(vars)
        new = dict(self.d)
        rows = list(rows)
        if len(parts) > 1:
            # a box restricts each group on its own
            projs = []
            n = 1
            for vs, _ in parts:
                idx = [vars.index(v) for v in vs]
                pr = set(tuple(r[i] for i in idx) for r in rows)
                projs.append((vs, pr))
                n *= len(pr)
            if n == len(set(rows)):
                for vs, pr in projs:
                    self._restrict1(new, vs, pr)
                return Store(new)
        gs = []
        for v in vars:
            g = self.grp(v)
            if g not in gs:
                gs.append(g)
        if len(gs) == 1:
            self._restrict1(new, vars, set(rows))
            return Store(new)
        n = 1
        for g in gs:
            n *= len(g.rows)
        if n > 4 * MAX_ROWS:
            raise Unsupported(f"relation of {n} rows over {[v.name for g in gs for v in g.vars]}")
        allv = [v for g in gs for v in g.vars]
        order = sorted(range(len(allv)), key=lambda i: allv[i].id)
        nv = tuple(allv[i] for i in order)
        idx = [nv.index(v) for v in vars]
        ok = set(rows)
        out = []
        for combo in itertools.product(*[g.rows for g in gs]):
            flat = [x for t in combo for x in t]
            r = tuple(flat[i] for i in order)
            if tuple(r[i] for i in idx) in ok:
                out.append(r)
        g = Grp(nv, out)
        for v in nv:
            new[v] = g
        return Store(new)

    def _restrict1(self, new, vars, ok):
        g = self.grp(vars[0])
        if g.vars == tuple(vars):
            rows = [r for r in g.rows if r in ok]
        else:
            idx = [g.vars.index(v) for v in vars]
            rows = [r for r in g.rows if tuple(r[i] for i in idx) in ok]
        ng = Grp(g.vars, rows)
        for v in g.vars:
            new[v] = ng

    def count(self):
        n = 1
        seen = set()
        for g in self.d.values():
            if id(g) not in seen:
                seen.add(id(g))
                n *= len(g.rows)
        return n

    def sample(self, rng):
        """One assignment satisfying the path condition."""
        out = {}
        seen = set()
        for g in list(self.d.values()):
            if id(g) in seen:
                continue
            seen.add(id(g))
            r = g.rows[rng.randrange(len(g.rows))]
            out.update(zip(g.vars, r))
        return out


class _Ctx:
    store = Store({})
    ex = None
    deadline = None
    stats = {"rows": 0, "lifts": 0, "forks": 0, "paths": 0}
    hooks = {}
    writes = 0
    merging = []
    memo = {}
    memo_w = 0


CTX = _Ctx()


def reset():
    CTX.store = Store({})
    CTX.ex = None


class Explorer:
    """Depth-first exploration of all the paths by re-execution."""

    def __init__(self, max_paths=20000, base=None):
        self.max_paths = max_paths
        self.base = base if base is not None else CTX.store

    def run(self, fn):
        """Yield the result of fn() for each path (with CTX.store set to its
        path condition)."""
        outer = (CTX.ex, CTX.store)
        stack = [[]]
        n = 0
        try:
            while stack:
                if CTX.deadline and time.time() > CTX.deadline:
                    raise OutOfTime("time limit")
                self.prefix = stack.pop()
                self.pos = 0
                self.trail = []
                self.stack = stack
                CTX.ex = self
                CTX.store = Store(dict(self.base.d), self.base.ver)
                n += 1
                CTX.stats["paths"] += 1
                if n > self.max_paths:
                    raise Unsupported(f"more than {self.max_paths} paths")
                try:
                    res = fn()
                except PathKill:
                    continue
                yield res
                CTX.ex, CTX.store = outer[0], outer[1]
        finally:
            CTX.ex, CTX.store = outer

    def choose(self, options):
        if self.pos < len(self.prefix):
            val, st = self.prefix[self.pos]
            self.pos += 1
            self.trail.append((val, st))
            CTX.store = Store(dict(st.d), st.ver)
            return val
        CTX.stats["forks"] += 1
        for o in reversed(options[1:]):
            self.stack.append(self.trail + [o])
        o = options[0]
        self.prefix = self.prefix + [o]
        self.pos += 1
        self.trail.append(o)
        CTX.store = Store(dict(o[1].d), o[1].ver)
        return o[0]


def choose(options):
    if len(options) == 1:
        CTX.store = options[0][1]
        return options[0][0]
    if not options:
        raise PathKill()
    if CTX.ex is None:
        raise Unsupported("branch on a symbolic value outside of an exploration")
    return CTX.ex.choose(options)


# ---------------------------------------------------------------- values

def same(a, b):
    return a is b or (type(a) is type(b) and a == b and repr(a) == repr(b)) if isinstance(a, float) \
        else a is b or (type(a) is type(b) and a == b)


class Exc:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class Lift:
    """A value given by a table over finite variables."""

    __slots__ = ("vars", "table")

    def __init__(self, vars, table):
        self.vars = vars
        self.table = table

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def cur(self):
        """Rows of the table allowed by the path condition."""
        t = self.table
        try:
            return [(r, t[r]) for r in CTX.store.rows(self.vars)]
        except KeyError:
            raise Unsupported("a value of another path is used") from None

    def values(self):
        out = []
        seen = set()
        for _, v in self.cur():
            try:
                k = (type(v), v)
                if k in seen:
                    continue
                seen.add(k)
            except TypeError:
                if any(v is o for o in out):
                    continue
            out.append(v)
        return out

    def __repr__(self):
        try:
            vs = self.values()
            return f"Lift({vs[:4]}{'...' if len(vs) > 4 else ''} over {list(self.vars)})"
        except BaseException:
            return "Lift(?)"

    def __bool__(self):
        return branch(self)

    def __hash__(self):
        return hash(concretize(self))

    def __index__(self):
        return operator.index(concretize(self))

    def __int__(self):
        return int(concretize(self))

    def __float__(self):
        return float(concretize(self))

    def __str__(self):
        return str(concretize(self))

    def __format__(self, spec):
        return format(concretize(self), spec)

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        o = split_type(self)
        if not isinstance(o, Lift):
            return getattr(o, name)
        first = o.cur()[0][1]
        a = getattr(first, name)
        if callable(a):
            def method(*args, **kw):
                return lift(lambda v, *b: getattr(v, name)(*b, **kw), o, *args)
            return method
        return lift(lambda v: getattr(v, name), o)

    def __iter__(self):
        return iter(concretize(self))

    def __len__(self):
        return len(concretize(self))

    def __call__(self, *a, **k):
        return concretize(self)(*a, **k)

    def __getitem__(self, i):
        o = split_type(self)
        if not isinstance(o, Lift):
            return o[i]
        return lift(operator.getitem, o, i)

    def __contains__(self, x):
        return branch(lift(operator.contains, self, x))

    def __round__(self, n=None):
        return lift(lambda v: round(v) if n is None else round(v, n), self)


def _bin(name, op):
    def f(self, other):
        if not liftable(other):
            return NotImplemented
        return lift(op, self, other)

    def rf(self, other):
        if not liftable(other):
            return NotImplemented
        return lift(lambda a, b: op(b, a), self, other)
    setattr(Lift, f"__{name}__", f)
    if name not in ("eq", "ne", "lt", "le", "gt", "ge"):
        setattr(Lift, f"__r{name}__", rf)


for _n, _o in dict(add=operator.add, sub=operator.sub, mul=operator.mul, truediv=operator.truediv,
                   floordiv=operator.floordiv, mod=operator.mod, pow=operator.pow,
                   divmod=divmod, eq=operator.eq, ne=operator.ne, lt=operator.lt,
                   le=operator.le, gt=operator.gt, ge=operator.ge, and_=operator.and_,
                   or_=operator.or_, xor=operator.xor).items():
    _bin(_n.rstrip("_"), _o)
for _n, _o in dict(neg=operator.neg, pos=operator.pos, abs=abs, invert=operator.invert).items():
    setattr(Lift, f"__{_n}__", (lambda op: lambda self: lift(op, self))(_o))
Lift.__hash__ = lambda self: hash(concretize(self))
import math as _math
Lift.__trunc__ = lambda self: lift(_math.trunc, self)
Lift.__floor__ = lambda self: lift(_math.floor, self)
Lift.__ceil__ = lambda self: lift(_math.ceil, self)


PROXY_TYPES = [Lift]


def liftable(x):
    from . import strings
    if isinstance(x, strings.SymStr):
        return True
    if isinstance(x, tuple(PROXY_TYPES)):
        return isinstance(x, Lift)
    return True


def is_sym(x):
    return isinstance(x, tuple(PROXY_TYPES))


def deep_sym(x, depth=4):
    if is_sym(x):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(deep_sym(i, depth - 1) for i in x)
    if depth and isinstance(x, dict):
        return any(deep_sym(i, depth - 1) or deep_sym(j, depth - 1) for i, j in x.items())
    return False


def _drop_vars(vars, table):
    """Remove the variables on which the table does not depend."""
    if len(vars) <= 1 or len(table) > 60000:
        return vars, table
    i = 0
    while i < len(vars) and len(vars) > 1:
        t = {}
        dep = False
        for r, v in table.items():
            k = r[:i] + r[i + 1:]
            if k in t:
                if not same(t[k], v):
                    dep = True
                    break
            else:
                t[k] = v
        if dep:
            i += 1
        else:
            table = t
            vars = vars[:i] + vars[i + 1:]
    return vars, table


def wrap(vars, table):
    it = iter(table.values())
    first = next(it)
    types = set(map(type, table.values()))
    if len(types) == 1 and Exc not in types and all(same(first, v) for v in it):
        return first
    excs = {}
    if Exc in types:
        for r, v in table.items():
            excs.setdefault(type(v.e) if isinstance(v, Exc) else None, []).append(r)
        opts = []
        for k, rows in excs.items():
            opts.append((k, CTX.store.restrict(vars, rows)))
        k = choose(opts)
        if k is not None:
            e = table[excs[k][0]].e
            try:
                ne = k(*e.args)
            except Exception:
                ne = e
            raise ne
        return wrap(vars, {r: table[r] for r in excs[None]})
    vars, table = _drop_vars(vars, table)
    if types == {str}:
        from . import strings
        return strings.SymStr((Lift(vars, table),))
    return Lift(vars, table)


def lift(f, *args):
    """Apply the pure function f to every allowed row of the arguments."""
    from . import strings
    vs = set()
    ex = []
    for a in args:
        if isinstance(a, strings.SymStr):
            a = a.to_lift()
        if isinstance(a, Lift):
            vs.update(a.vars)
        elif is_sym(a):
            raise Unsupported(f"operation on {type(a).__name__}")
        ex.append(a)
    if not vs:
        return f(*ex)
    vars = tuple(sorted(vs, key=lambda v: v.id))
    rows = CTX.store.rows(vars)
    if len(rows) > MAX_ROWS:
        raise Unsupported(f"table of {len(rows)} rows")
    CTX.stats["lifts"] += 1
    CTX.stats["rows"] += len(rows)
    getters = []
    for a in ex:
        if isinstance(a, Lift):
            if a.vars == vars:
                getters.append((a.table, None))
            else:
                getters.append((a.table, [vars.index(v) for v in a.vars]))
        else:
            getters.append((None, a))
    out = {}
    if len(getters) == 1 and getters[0][1] is None:
        t = getters[0][0]
        try:
            out = {r: f(t[r]) for r in rows}
        except Exception:
            out = {}
            for r in rows:
                try:
                    out[r] = f(t[r])
                except Exception as e:
                    out[r] = Exc(e)
        return wrap(vars, out)
    for r in rows:
        vals = []
        for t, i in getters:
            if t is None:
                vals.append(i)
            elif i is None:
                vals.append(t[r])
            else:
                vals.append(t[tuple([r[k] for k in i])])
        try:
            out[r] = f(*vals)
        except Exception as e:
            out[r] = Exc(e)
    return wrap(vars, out)


def simp(x):
    """Constant-fold under the current path condition."""
    if isinstance(x, Lift):
        c = x.cur()
        f = c[0][1]
        if all(same(f, v) for _, v in c):
            return f
    return x


def branch(x):
    """Truth value of x on this path (splits the path when undetermined)."""
    from . import strings
    if isinstance(x, strings.SymStr):
        return bool(x)
    if not isinstance(x, Lift):
        return bool(x)
    t, f = [], []
    for r, v in x.cur():
        (t if v else f).append(r)
    if not f:
        return True
    if not t:
        return False
    return choose([(True, CTX.store.restrict(x.vars, t)), (False, CTX.store.restrict(x.vars, f))])


def split_by(x, key):
    """Split the path by key(value); returns (key, restricted x)."""
    groups = {}
    for r, v in x.cur():
        groups.setdefault(key(v), []).append(r)
    if len(groups) == 1:
        k = next(iter(groups))
    else:
        k = choose([(k, CTX.store.restrict(x.vars, rows)) for k, rows in groups.items()])
        groups = {k: groups[k]}
    return k, wrap(x.vars, {r: x.table[r] for r in groups[k]})


def split_type(x):
    """Split by type; strings become SymStr."""
    return split_by(x, type)[1]


def concretize(x):
    """Split the path into one per value of x."""
    from . import strings
    if isinstance(x, strings.SymStr):
        x = x.to_lift()
    if not isinstance(x, Lift):
        return x
    groups = []
    index = {}
    for r, v in x.cur():
        try:
            k = (type(v), v)
            hash(k)
        except TypeError:
            k = ("id", id(v))
        if k not in index:
            index[k] = len(groups)
            groups.append((v, []))
        groups[index[k]][1].append(r)
    if len(groups) > 3000:
        raise Unsupported(f"more than 3000 values to enumerate")
    return choose([(v, CTX.store.restrict(x.vars, rows)) for v, rows in groups])


def var(name, dom, info=None):
    """New finite variable as a symbolic value."""
    v = Var(name, dom, info)
    return wrap((v,), {(x,): x for x in v.dom}) if len(v.dom) > 1 else v.dom[0]


def assign(x, asg):
    """Concrete value of the symbolic x under the assignment asg (Var -> value)."""
    from . import strings
    if isinstance(x, strings.SymStr):
        return "".join(p if isinstance(p, str) else p.table[tuple(asg[v] for v in p.vars)] for p in x.parts)
    if isinstance(x, Lift):
        return x.table[tuple(asg[v] for v in x.vars)]
    if hasattr(x, "__pv_assign__"):
        return x.__pv_assign__(asg)
    if isinstance(x, list):
        return [assign(i, asg) for i in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(assign(i, asg) for i in x)
    if isinstance(x, dict):
        return {assign(k, asg): assign(v, asg) for k, v in x.items()}
    return x


def all_vars(x, out=None):
    from . import strings
    if out is None:
        out = set()
    if isinstance(x, strings.SymStr):
        for p in x.parts:
            if isinstance(p, Lift):
                out.update(p.vars)
    elif isinstance(x, Lift):
        out.update(x.vars)
    elif hasattr(x, "__pv_vars__"):
        x.__pv_vars__(out)
    elif isinstance(x, (list, tuple)):
        for i in x:
            all_vars(i, out)
    elif isinstance(x, dict):
        for k, v in x.items():
            all_vars(k, out)
            all_vars(v, out)
    return out


# ---------------------------------------------------------------- merging

NOMERGE = set()
MERGE_ROWS = 6000
_PLAIN = (type(None), bool, int, float, str)


def write(n=1):
    """Called before each store to an attribute or item of the code."""
    CTX.writes += 1


def merge(f):
    """Decorator: the paths inside a call of f are joined in one symbolic
    result (only while the call has no side effects)."""
    import functools

    @functools.wraps(f)
    def g(*a, **k):
        if CTX.ex is None or f in NOMERGE or "real" in CTX.hooks:
            return f(*a, **k)
        if CTX.memo_w != CTX.writes:
            CTX.memo.clear()
            CTX.memo_w = CTX.writes
        key = None
        if not k:
            key = (f, CTX.store.ver, tuple([id(x) for x in a]))
            m = CTX.memo.get(key)
            if m is not None:
                return m[0]
        v = run(f, a, k)
        if key is not None and CTX.memo_w == CTX.writes and key[1] == CTX.store.ver:
            CTX.memo[key] = (v, a)
        return v

    def run(f, a, k):
        base = CTX.store
        w0 = CTX.writes
        ex = Explorer(400, base)
        res = []

        def body():
            try:
                return True, f(*a, **k)
            except Exception as e:
                return False, e
        CTX.merging.append(f)
        depth = len(CTX.merging)
        try:
            for r in ex.run(body):
                if CTX.writes != w0 and (ex.stack or res):
                    NOMERGE.update(CTX.merging[:depth])
                    raise Restart()
                res.append((CTX.store, r))
        except Unsupported:
            NOMERGE.update(CTX.merging[:depth])
            if CTX.writes != w0:
                raise Restart() from None
            del CTX.merging[depth - 1:]
            return f(*a, **k)
        finally:
            del CTX.merging[depth - 1:]
        if len(res) == 1 and res[0][1][0]:
            return res[0][1][1]
        if not res:
            raise PathKill()
        if len(res) == 1:
            raise res[0][1][1]
        v = _join(base, res)
        if v is None:
            return f(*a, **k)
        return v[0]
    g.__pv_merged__ = f
    return g


def _join(base, res):
    from . import strings
    f0 = res[0][1]
    if all(r[0] and isinstance(r[1], _PLAIN) and same(r[1], f0[1]) for _, r in res):
        return (f0[1],)
    vs = set()
    for st, (ok, v) in res:
        if not ok:
            return None
        if isinstance(v, (Lift, strings.SymStr)):
            all_vars(v, vs)
        elif not isinstance(v, _PLAIN):
            return None
        for x, g in st.d.items():
            b = base.d.get(x)
            if b is not g and len(g.rows) != (len(b.rows) if b is not None else len(x.dom)):
                vs.add(x)
    V = tuple(sorted(vs, key=lambda x: x.id))
    if not V:
        return None
    n = 1
    for _, r in base.parts(V):
        n *= len(r)
    if n > MERGE_ROWS:
        return None
    outer = CTX.store
    table = {}
    total = 0
    try:
        for st, (_, v) in res:
            rows = st.rows(V)
            total += len(rows)
            CTX.store = st
            if isinstance(v, strings.SymStr):
                v = v.to_lift()
            if isinstance(v, Lift):
                t = v.table
                ix = [V.index(x) for x in v.vars]
                for r in rows:
                    table[r] = t[tuple([r[i] for i in ix])]
            else:
                for r in rows:
                    table[r] = v
    finally:
        CTX.store = outer
    if total != len(table) or total != n:
        return None
    return (wrap(V, table),)
