"""Languages of regular expressions as automata over a fixed alphabet.

`Lang(kind, pattern)` is the language of the texts that re.match / re.fullmatch /
re.search accept; `classes(langs)` goes through the product of their automata and
gives one entry for every combination of acceptances that some word has, with
words of it: an exhaustive case split of all words, whatever their length."""
import re
from collections import deque
from re import _constants as K
from re import _parser

from .rx import NotSupported, cls_pred

# printable ASCII without the blank and without the join marker of the code
ALPHABET = "".join(chr(c) for c in range(33, 127) if chr(c) != "_")


class NFA:
    def __init__(self):
        self.eps = []      # per state: list of (condition, target)
        self.chr = []      # per state: list of (set of characters, target)

    def new(self):
        self.eps.append([])
        self.chr.append([])
        return len(self.eps) - 1

    def seq(self, nodes, a, flags, alphabet):
        for op, av in nodes:
            b = self.new()
            self.node(op, av, a, b, flags, alphabet)
            a = b
        return a

    def edge(self, a, b, pred, alphabet):
        s = frozenset(c for c in alphabet if pred(c))
        if s:
            self.chr[a].append((s, b))

    def node(self, op, av, a, b, flags, alphabet):
        if op is K.LITERAL:
            self.edge(a, b, lambda c: c == chr(av), alphabet)
        elif op is K.NOT_LITERAL:
            self.edge(a, b, lambda c: c != chr(av), alphabet)
        elif op is K.ANY:
            self.edge(a, b, lambda c: True, alphabet)
        elif op is K.IN:
            self.edge(a, b, cls_pred(av, flags), alphabet)
        elif op is K.BRANCH:
            for x in av[1]:
                s = self.new()
                self.eps[a].append((None, s))
                self.eps[self.seq(list(x), s, flags, alphabet)].append((None, b))
        elif op is K.SUBPATTERN:
            g, add, rem, p = av
            if add or rem:
                raise NotSupported("inline flags")
            s = self.new()
            self.eps[a].append((None, s))
            self.eps[self.seq(list(p), s, flags, alphabet)].append((None, b))
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            if lo > 64 or (hi is not K.MAXREPEAT and hi > 64):
                raise NotSupported("long repetition")
            s = self.new()
            self.eps[a].append((None, s))
            for _ in range(lo):
                s = self.seq(p, s, flags, alphabet)
            if hi is K.MAXREPEAT:
                t = self.new()
                self.eps[s].append((None, t))
                e = self.seq(p, t, flags, alphabet)
                self.eps[e].append((None, t))
                self.eps[t].append((None, b))
            else:
                self.eps[s].append((None, b))
                for _ in range(hi - lo):
                    s = self.seq(p, s, flags, alphabet)
                    self.eps[s].append((None, b))
        elif op is K.AT:
            n = str(av)
            if n in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                self.eps[a].append(("begin", b))
            elif n in ("AT_END", "AT_END_STRING"):
                self.eps[a].append(("end", b))
            else:
                raise NotSupported(n)
        else:
            raise NotSupported(str(op))


class Lang:
    def __init__(self, kind, pattern, flags=0, alphabet=ALPHABET, name=None):
        pat = re.compile(pattern, flags) if isinstance(pattern, str) else pattern
        if pat.flags & (re.IGNORECASE | re.LOCALE | re.MULTILINE):
            raise NotSupported("flags")
        self.name = name or pat.pattern
        self.kind = kind
        self.pat = pat
        n = self.n = NFA()
        s = n.new()
        if kind == "search":
            n.chr[s].append((frozenset(alphabet), s))
        elif kind not in ("match", "fullmatch"):
            raise NotSupported(kind)
        # an anchor at the beginning only holds before the first character
        t = n.new()
        n.eps[s].append((None, t))
        e = n.seq(list(_parser.parse(pat.pattern, pat.flags)), t, pat.flags, alphabet)
        self.final = n.new()
        n.eps[e].append(("end" if kind == "fullmatch" else None, self.final))
        if kind != "fullmatch":
            n.chr[self.final].append((frozenset(alphabet), self.final))
        self._next = {}
        self.start = self.close({s}, True)

    def close(self, states, begin=False):
        todo, seen = list(states), set(states)
        while todo:
            x = todo.pop()
            for c, y in self.n.eps[x]:
                if (c is None or (c == "begin" and begin)) and y not in seen:
                    seen.add(y)
                    todo.append(y)
        return frozenset(seen)

    def accepts_state(self, st):
        a = self._next.get((st, None))
        if a is None:
            todo, seen = list(st), set(st)
            while todo:
                x = todo.pop()
                for c, y in self.n.eps[x]:
                    if c in (None, "end") and y not in seen:
                        seen.add(y)
                        todo.append(y)
            a = self._next[(st, None)] = self.final in seen
        return a

    def step(self, st, c):
        k = (st, c)
        r = self._next.get(k)
        if r is None:
            r = self._next[k] = self.close({y for x in st for s, y in self.n.chr[x] if c in s})
        return r

    def sets(self, st):
        """Sets of characters that the state tells apart."""
        return {s for x in st for s, _ in self.n.chr[x]}

    def accepts(self, w):
        st = self.start
        for c in w:
            st = self.step(st, c)
            if not st:
                return False
        return self.accepts_state(st)


def split(alphabet, sets):
    """The coarsest partition of the alphabet in which each set is a union of blocks."""
    blocks = {}
    for c in alphabet:
        blocks.setdefault(tuple(c in s for s in sets), []).append(c)
    return list(blocks.values())


def classes(langs, alphabet=ALPHABET, limit=200000, words=4, rng=None):
    """{acceptance tuple: list of words} over all the words of the alphabet (the empty one excluded)."""
    start = tuple(l.start for l in langs)
    seen = {start: ()}
    todo = deque([start])
    out = {}
    while todo:
        st = todo.popleft()
        w = seen[st]
        sets = set()
        for l, s in zip(langs, st):
            sets |= l.sets(s)
        for block in split(alphabet, sorted(sets, key=sorted)):
            c = block[0]
            nx = tuple(l.step(s, c) for l, s in zip(langs, st))
            if nx in seen:
                v = seen[nx]
                sig = tuple(l.accepts_state(s) for l, s in zip(langs, nx))
                ws = out.get(sig)
                if ws is not None and len(ws) < words:
                    ws.append(word(w + (block,), rng))
                continue
            if len(seen) >= limit:
                raise NotSupported("too many states")
            seen[nx] = w + (block,)
            todo.append(nx)
            sig = tuple(l.accepts_state(s) for l, s in zip(langs, nx))
            ws = out.setdefault(sig, [])
            if len(ws) < words:
                ws.append(word(w + (block,), rng))
    return out, len(seen)


def word(blocks, rng=None):
    if rng is None:
        return "".join(b[0] for b in blocks)
    # letters and digits rather than the odd characters
    return "".join(rng.choice([c for c in b if c.isalnum()] or b) for b in blocks)
