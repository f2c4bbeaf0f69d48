"""Texts with unknown parts of any length.

A text is a `str` in which private-use characters stand for unknown parts, each
one any text of a language (`Words`: one or more words with one blank between
them, none of which begins as a keyword; `Word`: a word with a given beginning
left out).  An operation on such a text is done only if it gives the same result
for every value of the unknown parts, up to the replacement of the parts: for a
regular expression (and replace, split, startswith, ...), if no match of it can
have a character of an unknown part (decided with automata), and the characters
that it looks at next to a part are told apart alike.  Any other operation
raises `Cut`, which ends the run of the code there.
"""
import functools
import json
import re
import types
from collections import deque
from re import _constants as K
from re import _parser

from . import dfa
from .rx import NotSupported, cls_pred

ALPHA = [chr(c) for c in range(33, 127) if chr(c) not in "_="]
BASE = 0xE000
KINDS = {}


class Cut(BaseException):
    """An operation that depends on the value of an unknown part."""


class Kind:
    empty = False
    blanks = False
    first = last = ALPHA

    def chars(self):
        return ALPHA

    def letter(self, c):
        return c if c in self.special else ""


class Words(Kind):
    """Words with one blank between them, none of which begins with one of the keys."""
    blanks = True

    def __init__(self, keys):
        self.keys = tuple(keys)
        self.pre = {k[:i] for k in keys for i in range(1, len(k))}
        self.special = set("".join(keys)) | {" "}
        self.start = " "

    def step(self, s, c):
        if c == " ":
            return None if s == " " else " "
        if s == "*":
            return "*"
        p = ("" if s == " " else s) + c
        if p in self.keys:
            return None
        return p if p in self.pre else "*"

    def final(self, s):
        return s != " "

    def chars(self):
        return ALPHA + [" "]


class Word(Kind):
    """A run of characters without blanks, other than the texts of `but`."""

    def __init__(self, but=(), empty=False):
        self.but = set(but)
        self.pre = {k[:i] for k in but for i in range(1, len(k) + 1)}
        self.special = set("".join(but))
        self.empty = empty
        self.start = ""

    def step(self, s, c):
        p = s + c
        return p if s != "*" and p in self.pre else "*"

    def final(self, s):
        return self.empty if s == "" else s not in self.but


class Outside(Kind):
    """The words that none of the languages accepts (given to dfa as alphabets of ALPHA)."""

    def __init__(self, langs):
        start = tuple(l.start for l in langs)
        number = {start: 0}
        todo = [start]
        rows = []
        accept = []
        for st in todo:
            if len(todo) > 30000:
                raise NotSupported("too many states")
            accept.append(not any(l.accepts_state(x) for l, x in zip(langs, st)))
            sets = set()
            for l, x in zip(langs, st):
                sets |= l.sets(x)
            row = {}
            for block in dfa.split(ALPHA, sorted(sets, key=sorted)):
                nx = tuple(l.step(x, block[0]) for l, x in zip(langs, st))
                if nx not in number:
                    number[nx] = len(todo)
                    todo.append(nx)
                for c in block:
                    row[c] = number[nx]
            rows.append([row[c] for c in ALPHA])
        accept[0] = False
        # Moore's partition refinement
        cls = [int(a) for a in accept]
        cls[0] = 2
        n = len(set(cls))
        while True:
            key = {}
            new = [key.setdefault((cls[i], tuple(cls[j] for j in r)), len(key)) for i, r in enumerate(rows)]
            cls = new
            if len(key) == n:
                break
            n = len(key)
        self.table = [None] * n
        self.accept = [False] * n
        for i, r in enumerate(rows):
            if self.table[cls[i]] is None:
                self.table[cls[i]] = [cls[j] for j in r]
                self.accept[cls[i]] = accept[i]
        self.start = cls[0]
        live = {i for i in range(n) if self.accept[i]}
        while True:
            more = {i for i in range(n) if i not in live and any(j in live for j in self.table[i])}
            if not more:
                break
            live |= more
        self.table = [[j if j in live else None for j in r] for r in self.table]
        self.col = {}
        cols = {}
        for k, c in enumerate(ALPHA):
            self.col[c] = cols.setdefault(tuple(r[k] for r in self.table), len(cols))
        self.index = {c: k for k, c in enumerate(ALPHA)}

    def letter(self, c):
        return self.col[c]

    def step(self, s, c):
        return self.table[s][self.index[c]]

    def final(self, s):
        return self.accept[s]

    def sample(self, r, length):
        """A random word of about that length."""
        s, w = self.start, ""
        while True:
            if len(w) >= length and self.accept[s]:
                return w
            cs = [c for c in ALPHA if self.table[s][self.index[c]] is not None]
            c = r.choice([x for x in cs if x.isalnum()] or cs)
            w += c
            s = self.step(s, c)


def part(n, kind):
    """The character that stands for the unknown part n."""
    c = chr(BASE + n)
    KINDS[c] = kind
    return c


def unknown(s):
    for c in s:
        if c >= "\ue000" and c in KINDS:
            return True
    return False


def concrete(s, choose):
    """The text with each part replaced."""
    values = {c: choose(KINDS[c]) for c in dict.fromkeys(s) if c in KINDS}
    return "".join(values.get(c, c) for c in s)


# ---------------------------------------------------------------- patterns

class Pattern:
    def __init__(self, pat):
        if pat.flags & (re.IGNORECASE | re.LOCALE | re.MULTILINE):
            raise NotSupported("flags")
        self.eps = []
        self.chr = []
        self.sets = []         # predicates looked at next to the match
        a = self.new()
        self.final = self.new()
        e = self.seq(list(_parser.parse(pat.pattern, pat.flags)), a, pat.flags, True, True)
        self.eps[e].append((None, self.final))
        self.start = a

    def new(self):
        self.eps.append([])
        self.chr.append([])
        return len(self.eps) - 1

    def look(self, pred):
        self.sets.append(pred)
        return len(self.sets) - 1

    def seq(self, nodes, a, flags, first, last):
        for n, (op, av) in enumerate(nodes):
            b = self.new()
            self.node(op, av, a, b, flags, first and n == 0, last and n == len(nodes) - 1)
            a = b
        return a

    def node(self, op, av, a, b, flags, first, last):
        if op is K.LITERAL:
            self.chr[a].append((lambda c: c == chr(av), b))
        elif op is K.NOT_LITERAL:
            self.chr[a].append((lambda c: c != chr(av), b))
        elif op is K.ANY:
            self.chr[a].append((lambda c: c != "\n", b))
        elif op is K.IN:
            self.chr[a].append((cls_pred(av, flags), b))
        elif op is K.BRANCH:
            for x in av[1]:
                self.eps[self.seq(list(x), a, flags, first, last)].append((None, b))
        elif op is K.SUBPATTERN:
            g, add, rem, p = av
            if add or rem:
                raise NotSupported("inline flags")
            self.eps[self.seq(list(p), a, flags, first, last)].append((None, b))
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            s = self.new()
            self.eps[a].append((None, s))
            for _ in range(lo):
                s = self.seq(p, s, flags, False, False)
            if hi is K.MAXREPEAT:
                t = self.new()
                self.eps[s].append((None, t))
                self.eps[self.seq(p, t, flags, False, False)].append((None, t))
                self.eps[t].append((None, b))
            else:
                if hi - lo > 64:
                    raise NotSupported("long repetition")
                self.eps[s].append((None, b))
                for _ in range(hi - lo):
                    s = self.seq(p, s, flags, False, False)
                    self.eps[s].append((None, b))
        elif op is K.AT:
            n = str(av)
            if n in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                self.eps[a].append((("begin",), b))
            elif n in ("AT_END", "AT_END_STRING"):
                self.eps[a].append((("end", n == "AT_END"), b))
            elif n in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
                w = self.look(lambda c: c.isalnum() or c == "_")
                for x in (False, True):
                    m = self.new()
                    self.eps[a].append((("behind", w, x), m))
                    self.eps[m].append((("ahead", w, (not x) == (n == "AT_BOUNDARY")), b))
            else:
                raise NotSupported(n)
        elif op in (K.ASSERT, K.ASSERT_NOT):
            way, p = av
            p = list(p)
            one = self.single(p, flags)
            if one is not None:
                k = self.look(one)
                self.eps[a].append((("ahead" if way > 0 else "behind", k, op is K.ASSERT), b))
            elif way > 0:
                # what is looked at is taken as part of the match
                self.eps[self.seq(p, a, flags, False, False)].append((None, self.final))
                if not (op is K.ASSERT and last):
                    self.eps[a].append((None, b))
            elif first:
                self.eps[self.seq(p, a, flags, False, False)].append((None, b))
                if op is K.ASSERT_NOT:
                    self.eps[a].append((None, b))
            else:
                raise NotSupported("look behind")
        else:
            raise NotSupported(str(op))

    @staticmethod
    def single(p, flags):
        if len(p) != 1:
            return None
        op, av = p[0]
        if op is K.LITERAL:
            return lambda c: c == chr(av)
        if op is K.NOT_LITERAL:
            return lambda c: c != chr(av)
        if op is K.IN:
            return cls_pred(av, flags)
        return None


@functools.lru_cache(None)
def compiled(pat):
    return Pattern(pat)


@functools.lru_cache(None)
def letters(pat, kind):
    """Characters of the kind, one for each that the pattern and the kind tell apart."""
    p = compiled(pat)
    preds = p.sets + [x for e in p.chr for x, _ in e]
    out = {}
    for c in kind.chars():
        out.setdefault((kind.letter(c), tuple(bool(f(c)) for f in preds)), c)
    return list(out.values())


class Run:
    """The text with its unknown parts as an automaton, against a pattern."""

    def __init__(self, pat, text):
        self.pat = pat
        self.p = compiled(pat)
        self.text = text
        self.n = len(text)
        self._moves = {}
        self._next = {}

    def close(self, t):
        """Positions reached without reading a character."""
        out = [t]
        for i, q in out:
            if i >= self.n:
                continue
            k = KINDS.get(self.text[i])
            if q is None:
                if k is not None:
                    out.append((i, (k.start, False)))
            elif k.final(q[0]):
                if (i + 1, None) not in out:
                    out.append((i + 1, None))
        return out

    def nexts(self, t):
        """(target, what is looked at in the character read)."""
        r = self._next.get(t)
        if r is None:
            r = []
            for i, q in self.close(t):
                if i >= self.n:
                    continue
                k = KINDS.get(self.text[i])
                if k is None:
                    r.append(((i + 1, None), sig(self.pat, self.text[i])))
                elif q is not None:
                    r += [((i, (s, True)), g) for s, g in hops(self.pat, k, q[0])]
            self._next[t] = r
        return r

    def taking(self, t, ps, n):
        """(target, whether it is of an unknown part, what is looked at) for the n-th edge of the pattern's state."""
        r = self._moves.get((t, ps, n))
        if r is None:
            r = []
            for i, q in self.close(t):
                if i >= self.n:
                    continue
                k = KINDS.get(self.text[i])
                if k is None:
                    if takes(self.pat, ps, n, self.text[i]):
                        r.append(((i + 1, None), False, sig(self.pat, self.text[i])))
                elif q is not None:
                    r += [((i, (s, True)), True, g) for s, g in taken(self.pat, k, q[0], ps, n)]
            self._moves[(t, ps, n)] = r
        return r

    def at_end(self, t, newline=False):
        """At the end of the text (or before a newline that ends it)."""
        n = self.n - 1 if newline and self.text[-1:] == "\n" else self.n
        return any(i >= n for i, _ in self.close(t))

    def inside(self, t):
        """Strictly within an unknown part."""
        i, q = t
        return q is not None and q[1]

    def behind(self, prev, k, want):
        if prev is None:
            return not want
        return prev[k] == want

    def ok_ahead(self, t, need):
        """Some next character (or the end) has what is looked for."""
        if not need:
            return True
        if all(not w for _, w in need) and self.at_end(t):
            return True
        return any(all(g[k] == w for k, w in need) for _, g in self.nexts(t))

    def touches(self, whole, blank=False):
        """Whether some match may have a character of an unknown part (blank: other than one blank alone)."""
        p = self.p
        starts = {((0, None), None)}
        todo = deque(starts)
        if not whole:
            while todo:
                t, prev = todo.popleft()
                for x in self.nexts(t):
                    if x not in starts:
                        starts.add(x)
                        todo.append(x)
        seen = set()
        todo = deque((t, p.start, prev, 0, False, ()) for t, prev in starts)
        while todo:
            x = todo.popleft()
            if x in seen:
                continue
            seen.add(x)
            t, s, prev, touched, moved, need = x
            if s == p.final and (touched == 2 or touched and not blank or (not moved and self.inside(t))) and self.ok_ahead(t, need):
                return True
            for cond, s2 in p.eps[s]:
                nd = need
                if cond is not None:
                    if cond[0] == "begin" and prev is not None:
                        continue
                    if cond[0] == "end":
                        if not self.at_end(t, cond[1]):
                            continue
                    elif cond[0] == "behind":
                        if not self.behind(prev, cond[1], cond[2]):
                            continue
                    elif cond[0] == "ahead":
                        nd = tuple(sorted(set(need) | {cond[1:]}))
                todo.append((t, s2, prev, touched, moved, nd))
            for n, (_, s2) in enumerate(p.chr[s]):
                for u, seg, g in self.taking(t, s, n):
                    if not need or all(g[k] == w for k, w in need):
                        one = seg and not moved and u[1][0] == " " and KINDS[self.text[u[0]]].blanks
                        todo.append((u, s2, g, 1 if one else 2 if seg or touched else 0, True, ()))
        return False


def width(nodes):
    """The most characters that a match reads or looks at (None: no limit)."""
    n = 0
    for op, av in nodes:
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            w = width(av[2])
            w = None if av[1] is K.MAXREPEAT or w is None else w * av[1]
        elif op is K.SUBPATTERN:
            w = width(av[3])
        elif op is K.BRANCH:
            ws = [width(x) for x in av[1]]
            w = None if None in ws else max(ws)
        elif op in (K.ASSERT, K.ASSERT_NOT):
            w = width(av[1])
        elif op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN, K.AT):
            w = 1
        else:
            return None
        if w is None:
            return None
        n += w
    return n


@functools.lru_cache(None)
def reach(pat):
    return width(list(_parser.parse(pat.pattern, pat.flags)))


@functools.lru_cache(200000)
def natural(pat, text, whole=False, blank=False):
    """Whether the matches of the pattern are the same for every value of the parts.

    With blank, they may also be single blanks of the parts."""
    try:
        p = compiled(pat)
    except NotSupported:
        return False
    names = {KINDS[c]: c for c in reversed(list(KINDS)) if c in text} if unknown(text) else {}
    for m in pat.finditer(text):
        if unknown(m.group()):
            return False
    for k, ch in names.items():
        if not fits(pat, k, ch):
            return False
    # a match with a character of a part lies within the reach of the pattern
    text = "".join(names[KINDS[c]] if c in KINDS else c for c in text)
    if all(strange(pat, k) for k in names):
        return True
    w = reach(pat)
    if w is None:
        return apart(pat, text, whole, blank)
    if whole:
        return apart(pat, text[:w + 2], whole, blank)
    out = []
    for i, c in enumerate(text):
        if c in KINDS:
            a, b = max(0, i - w - 1), i + w + 2
            if out and a <= out[-1][1]:
                out[-1][1] = b
            else:
                out.append([a, b])
    return all(apart(pat, text[a:b], False, blank) for a, b in out)


@functools.lru_cache(None)
def fits(pat, k, ch):
    p = compiled(pat)
    for f in p.sets:
        v = bool(f(ch))
        if any(bool(f(c)) != v for c in k.first) or any(bool(f(c)) != v for c in k.last):
            return False
    if any(f(ch) and not any(f(c) for c in k.chars()) for e in p.chr for f, _ in e):
        return False
    # a part that may be empty hides what is next to it
    return not (k.empty and p.sets)


@functools.lru_cache(None)
def strange(pat, k):
    """Each match has a character, and none of the kind."""
    lo = _parser.parse(pat.pattern, pat.flags).getwidth()[0]
    return lo > 0 and not any(f(c) for e in compiled(pat).chr for f, _ in e for c in k.chars())


@functools.lru_cache(200000)
def apart(pat, text, whole, blank):
    return not Run(pat, text).touches(whole, blank)


@functools.lru_cache(None)
def steps(pat, k, s):
    return [(c, x, sig(pat, c)) for c in letters(pat, k) for x in (k.step(s, c),) if x is not None]


@functools.lru_cache(None)
def hops(pat, k, s):
    return list(dict.fromkeys((x, g) for _, x, g in steps(pat, k, s)))


@functools.lru_cache(None)
def taken(pat, k, s, ps, n):
    return list(dict.fromkeys((x, g) for c, x, g in steps(pat, k, s) if takes(pat, ps, n, c)))


@functools.lru_cache(None)
def takes(pat, s, n, c):
    return bool(compiled(pat).chr[s][n][0](c))


@functools.lru_cache(None)
def sig(pat, c):
    return tuple(bool(f(c)) for f in compiled(pat).sets)


def need(pat, text, whole=False, blank=False):
    if isinstance(text, Prefix):
        raise Cut("slice")
    if not natural(pat, plain(text), whole, blank):
        raise Cut(f"{pat.pattern!r} on {text!r}")


def plain(s):
    return str.__getitem__(s, slice(None)) if isinstance(s, Seg) else s


def wrap(x):
    if isinstance(x, str):
        return Seg(x) if type(x) is str and unknown(x) else x
    if isinstance(x, list):
        return [wrap(y) for y in x]
    if isinstance(x, tuple):
        return tuple(wrap(y) for y in x)
    return x


class Seg(str):
    """A text with unknown parts."""

    def __hash__(self):
        raise Cut("hash")

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        a, b = plain(self), plain(o)
        if a == b:
            return True
        if not differ(a, b):
            raise Cut(f"{a!r} == {b!r}")
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def _no(self, *a, **k):
        raise Cut("operation on a text with unknown parts")

    __lt__ = __le__ = __gt__ = __ge__ = __len__ = __mul__ = __rmul__ = __mod__ = __rmod__ = _no

    def __iter__(self):
        raise Cut("characters")

    def __bool__(self):
        return True

    def __add__(self, o):
        return Seg(plain(self) + plain(o)) if isinstance(o, str) else NotImplemented

    def __radd__(self, o):
        return Seg(plain(o) + plain(self))

    def __str__(self):
        return self

    def __format__(self, spec):
        if spec:
            raise Cut("format")
        return plain(self)

    def __getitem__(self, i):
        return item(self, i)

    def __contains__(self, x):
        return contains(x, self)


def differ(a, b):
    """Whether the two texts differ for all the values of their parts."""
    if unknown(b) and not unknown(a):
        a, b = b, a
    if unknown(b):
        i = 0
        while i < min(len(a), len(b)) and a[i] == b[i] and a[i] not in KINDS:
            i += 1
        return i < min(len(a), len(b)) and a[i] not in KINDS and b[i] not in KINDS
    if not unknown(a):
        return a != b
    # b is a text: read it with the automaton of a
    r = Run(re.compile(re.escape(b) if b else "(?!)"), a)
    states = {(0, None)}
    for c in b:
        nxt = set()
        for t in states:
            for i, q in r.close(t):
                if i >= r.n:
                    continue
                k = KINDS.get(a[i])
                if k is None:
                    if a[i] == c:
                        nxt.add((i + 1, None))
                elif q is not None and c in k.chars():
                    s = k.step(q[0], c)
                    if s is not None:
                        nxt.add((i, (s, True)))
        states = nxt
    return not any(r.at_end(t) for t in states)


def item(s, i):
    p = plain(s)
    if not isinstance(i, slice):
        i = i.__index__()
        if (unknown(p[:i + 1]) if i >= 0 else unknown(p[i:])) or not -len(p) <= i < len(p):
            raise Cut("character")
        return p[i]
    if i.step not in (None, 1):
        raise Cut("slice")
    if i.start in (None, 0) and i.stop is not None and i.stop > 0 and unknown(p[:i.stop]):
        return Prefix(p, i.stop)
    for x in (i.start, i.stop):
        if x is None:
            continue
        if (unknown(p[:x]) or x > len(p)) if x >= 0 else (unknown(p[x:]) or -x > len(p)):
            raise Cut("slice")
    return wrap(p[i])


class Prefix(Seg):
    """The first characters of a text with unknown parts: only compared with known texts."""

    def __new__(cls, text, n):
        o = str.__new__(cls, text)
        o.n = n
        return o

    def __eq__(self, o):
        if not isinstance(o, str) or isinstance(o, Seg):
            raise Cut("slice")
        if len(o) > self.n:
            return False
        if len(o) < self.n:
            return Seg(plain(self)) == o
        return method("startswith", Seg(plain(self)), (o,), {})

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = Seg.__hash__
    __add__ = __radd__ = __getitem__ = __contains__ = __format__ = __str__ = Seg._no


def contains(x, s):
    need(re.compile(re.escape(plain(x))), s)
    return plain(x) in plain(s)


class Match:
    def __init__(self, m, s):
        self.m = m
        self.s = s

    def _pos(self, i):
        if i > 0 and unknown(plain(self.s)[:i]):
            raise Cut("position")
        return i

    @property
    def string(self):
        return self.s

    @property
    def re(self):
        return self.m.re

    @property
    def lastgroup(self):
        return self.m.lastgroup

    def start(self, *a):
        return self._pos(self.m.start(*a))

    def end(self, *a):
        return self._pos(self.m.end(*a))

    def span(self, *a):
        return self.start(*a), self.end(*a)

    def group(self, *a):
        return self.m.group(*a)

    def groups(self, *a):
        return self.m.groups(*a)

    def groupdict(self, *a):
        return self.m.groupdict(*a)

    __getitem__ = group


def pattern(name, pat, s, a, k):
    """A method of a pattern on the text s (a: the other arguments)."""
    if isinstance(pat, Seg):
        raise Cut("pattern")
    pat = re.compile(pat) if isinstance(pat, str) else pat
    if name == "fullmatch":
        full = re.compile(f"(?:{pat.pattern})\\Z", pat.flags & ~re.UNICODE)
        need(full, s, True)
        name, pat = "match", full
    elif name == "sub" and a[0] == " " and len(a) == 1 and not k.get("count"):
        need(pat, s, False, True)      # a blank in the place of a blank of a part
    elif name == "split" and not a and not k and not natural(pat, plain(s)):
        need(pat, s, False, True)
        if pat.groups:
            raise Cut("split")
        return Pieces(pat.split(plain(s)))
    else:
        need(pat, s, name == "match")
    t = plain(s)
    if name in ("match", "search"):
        m = getattr(pat, name)(t)
        return None if m is None else Match(m, s)
    if name == "finditer":
        return iter([Match(m, s) for m in pat.finditer(t)])
    if name in ("findall", "split"):
        return wrap(getattr(pat, name)(t, *a, **k))
    if name in ("sub", "subn"):
        repl = a[0]
        if isinstance(repl, Seg):
            raise Cut("replacement")
        if not isinstance(repl, str):
            f = repl
            repl = lambda m: plain(f(m))
        return wrap(getattr(pat, name)(repl, t, *a[1:], **k))
    raise Cut(name)


def method(name, s, a, k):
    """s.name(*a, **k)."""
    if isinstance(s, Prefix):
        raise Cut("slice")
    p = plain(s)
    lit = [plain(x) if isinstance(x, str) else x for x in a]
    rx = lambda x, *w: need(re.compile(re.escape(x)), s, *w)
    if name in ("strip", "lstrip", "rstrip"):
        if lit and lit[0] is not None and set(lit[0]) & (set(ALPHA) | set(KINDS)):
            raise Cut(name)
        if p and any(c in KINDS and KINDS[c].empty for c in (p[0], p[-1])):
            raise Cut(name)
        return wrap(getattr(p, name)(*lit))
    if name in ("startswith", "endswith"):
        if len(lit) != 1:
            raise Cut(name)
        for x in lit[0] if isinstance(lit[0], tuple) else lit:
            if name == "startswith":
                rx(plain(x), True)
            else:
                need(re.compile(re.escape(plain(x)) + r"\Z"), s)
        return getattr(p, name)(*(lit if isinstance(lit[0], str) else [tuple(plain(x) for x in lit[0])]))
    if name in ("replace", "count", "removeprefix", "removesuffix", "partition", "rpartition", "index", "find", "rfind",
                "rindex", "split", "rsplit", "splitlines"):
        if name in ("split", "rsplit") and (not lit and "sep" not in k or lit and lit[0] is None):
            if a or k or any(c in KINDS and KINDS[c].empty for c in p):
                raise Cut("split into words")
            if any(c in KINDS and KINDS[c].blanks for c in p):
                return Pieces(p.split())
            return wrap(getattr(p, name)())
        x = lit[0] if lit else k.get("sep", "\n")
        if name == "splitlines":      # no part has the end of a line
            return wrap(p.splitlines(*lit, **k))
        if not x:
            raise Cut(name)
        rx(x)
        r = getattr(p, name)(*lit, **k)
        if name in ("index", "find", "rfind", "rindex") and (len(lit) > 1 or r > 0 and unknown(p[:r])):
            raise Cut("position")
        return wrap(r)
    if name == "join":
        return join(s, a[0])
    if name in ("__str__", "__eq__", "__ne__", "__add__", "__contains__", "__getitem__"):
        return getattr(s, name)(*a)
    raise Cut(name)


class Pieces:
    """The words of a text, some of them in unknown parts: only joined again with one blank."""

    def __init__(self, xs):
        self.xs = xs

    def _no(self, *a, **k):
        raise Cut("words of a text with unknown parts")

    __iter__ = __len__ = __getitem__ = __contains__ = __eq__ = __bool__ = __add__ = __getattr__ = _no
    __hash__ = None


def join(sep, xs):
    if isinstance(xs, Pieces):
        if type(sep) is not str or sep != " ":
            raise Cut("words of a text with unknown parts")
        xs = xs.xs
    if any(isinstance(x, Prefix) for x in xs) or isinstance(sep, Prefix):
        raise Cut("slice")
    return wrap(plain(sep).join([plain(x) for x in xs]))


NATIVE = types.BuiltinFunctionType
RE = {re.match, re.fullmatch, re.search, re.findall, re.finditer, re.split, re.sub, re.subn}


def call(f, a, k):
    """Calls from the code; NotImplemented where no text with unknown parts takes part."""
    self = getattr(f, "__self__", None)
    try:
        isre = f in RE
    except (TypeError, Cut):
        isre = False
    if isre:
        names = {"sub": ("pattern", "repl", "string", "count", "flags"), "subn": ("pattern", "repl", "string", "count", "flags"),
                 "split": ("pattern", "string", "maxsplit", "flags")}.get(f.__name__, ("pattern", "string", "flags"))
        kw = dict(zip(names, a))
        kw.update(k)
        if not any(isinstance(x, Seg) for x in kw.values()):
            return NotImplemented
        pat = kw.pop("pattern")
        fl = kw.pop("flags", 0)
        s = kw.pop("string")
        if isinstance(pat, Seg):
            raise Cut("pattern")
        pat = re.compile(pat, fl) if isinstance(pat, str) else pat
        first = [kw.pop("repl")] if "repl" in kw else []
        return pattern(f.__name__, pat, s, first, kw)
    if isinstance(self, re.Pattern) and isinstance(f, NATIVE):
        n = f.__name__
        if not any(isinstance(x, Seg) for x in list(a) + list(k.values())):
            return NotImplemented
        a = list(a)
        if n in ("sub", "subn"):
            repl = k.pop("repl") if "repl" in k else a.pop(0)
            s = k.pop("string") if "string" in k else a.pop(0)
            return pattern(n, self, s, [repl] + a, k)
        s = k.pop("string") if "string" in k else a.pop(0)
        if n != "split" and (a or k):
            raise Cut("position")
        return pattern(n, self, s, a, k)
    if isinstance(self, Seg) and isinstance(f, (NATIVE, types.MethodWrapperType)):
        return method(f.__name__, self, a, k)
    if type(self) is str and isinstance(f, NATIVE):
        if f.__name__ == "join":
            if type(a[0]) is Pieces:
                return join(self, a[0])
            xs = list(a[0])
            return join(self, xs) if any(isinstance(x, Seg) for x in xs) else self.join(xs)
        if any(isinstance(x, Seg) for x in list(a) + list(k.values())):
            if f.__name__ == "replace" and not isinstance(a[0], Seg):
                return wrap(self.replace(*[plain(x) if isinstance(x, str) else x for x in a]))
            if f.__name__ == "format":
                return wrap(self.format(*a, **k))
            raise Cut(f.__name__)
        return NotImplemented
    if isinstance(f, types.MethodDescriptorType) and a and isinstance(a[0], Seg):
        return method(f.__name__, a[0], a[1:], k)
    if f is json.dumps:
        return json.dumps(*a, **k)      # a text about which nothing more is known
    if f is str and len(a) == 1 and isinstance(a[0], Seg):
        return a[0]
    if f in (len, int, float, sorted, list, tuple, set, repr, ord) if isinstance(f, (NATIVE, type)) else False:
        if any(isinstance(x, (Seg, Pieces)) for x in a):
            raise Cut(f.__name__)
    return NotImplemented


def fstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if isinstance(v, Seg):
            if isinstance(v, Prefix):
                raise Cut("slice")
            if conv in (114, 97) or spec:
                raise Cut("format")
            out.append(v)
        else:
            v = str(v) if conv == 115 else repr(v) if conv == 114 else ascii(v) if conv == 97 else v
            out.append(format(v, plain(spec)))
    return join("", out)
