"""Regular expressions over strings with symbolic characters.

A backtracking matcher over the parse tree of the pattern asks questions about
single characters; each question that is not determined splits the possible
characters.  It only serves to find a partition of the strings: the result of
each class is the one that `re` itself gives on a member of the class.
"""
import re
from re import _constants as K
from re import _parser


class NotSupported(Exception):
    pass


class Need(Exception):
    def __init__(self, i, pred):
        self.i = i
        self.pred = pred


_PARSED = {}


def parsed(pat):
    k = (pat.pattern, pat.flags)
    p = _PARSED.get(k)
    if p is None:
        if pat.flags & (re.IGNORECASE | re.LOCALE | re.DEBUG):
            p = NotSupported("flags")
        else:
            try:
                p = compile_seq(list(_parser.parse(pat.pattern, pat.flags)), pat.flags)
            except NotSupported as e:
                p = e
        _PARSED[k] = p
    if isinstance(p, NotSupported):
        raise p
    return p


def cls_pred(av, flags):
    """Membership predicate of a character class (hashable key, function)."""
    items = []
    neg = False
    for o, a in av:
        if o is K.NEGATE:
            neg = True
        elif o is K.LITERAL:
            items.append(lambda c, a=chr(a): c == a)
        elif o is K.RANGE:
            items.append(lambda c, a=a: a[0] <= ord(c) <= a[1])
        elif o is K.CATEGORY:
            items.append(category(a, flags))
        else:
            raise NotSupported(str(o))
    return lambda c: any(f(c) for f in items) != neg


def category(a, flags):
    n = str(a)
    asc = re.ASCII if flags & re.ASCII else 0
    for w, s in (("NOT_DIGIT", r"\D"), ("DIGIT", r"\d"), ("NOT_SPACE", r"\S"), ("SPACE", r"\s"),
                 ("NOT_WORD", r"\W"), ("WORD", r"\w")):
        if w in n:
            p = re.compile(s, asc)
            return lambda c: p.match(c) is not None
    raise NotSupported(n)


def compile_seq(nodes, flags):
    return [compile_node(op, av, flags) for op, av in nodes]


def memo(f):
    d = {}

    def g(c):
        v = d.get(c)
        if v is None:
            v = d[c] = f(c)
        return v
    return g


def compile_node(op, av, flags):
    if op is K.LITERAL:
        return ("chr", memo(lambda c, a=chr(av): c == a))
    if op is K.NOT_LITERAL:
        return ("chr", memo(lambda c, a=chr(av): c != a))
    if op is K.ANY:
        return ("chr", (lambda c: True) if flags & re.DOTALL else memo(lambda c: c != "\n"))
    if op is K.IN:
        return ("chr", memo(cls_pred(av, flags)))
    if op is K.BRANCH:
        return ("alt", [compile_seq(list(b), flags) for b in av[1]])
    if op is K.SUBPATTERN:
        g, add, rem, p = av
        if add or rem:
            raise NotSupported("inline flags")
        return ("grp", g, compile_seq(list(p), flags))
    if op in (K.MAX_REPEAT, K.MIN_REPEAT):
        lo, hi, p = av
        return ("rep", op is K.MAX_REPEAT, lo, None if hi is K.MAXREPEAT else hi, compile_seq(list(p), flags))
    if op is K.ATOMIC_GROUP:
        return ("atom", compile_seq(list(av), flags))
    if op in (K.ASSERT, K.ASSERT_NOT):
        d, p = av
        lo, hi = p.getwidth()
        if d < 0 and lo != hi:
            raise NotSupported("lookbehind")
        return ("look", op is K.ASSERT, d, lo, compile_seq(list(p), flags))
    if op is K.AT:
        n = str(av)
        if flags & re.MULTILINE and ("BEGINNING" in n and "STRING" not in n or n.endswith("AT_END")):
            return ("at", "M" + n)
        return ("at", n)
    raise NotSupported(str(op))


class Matcher:
    """One run over a string of n characters; ask(i, pred) tells a character's class."""

    def __init__(self, n, ask):
        self.n = n
        self.ask = ask
        self.steps = 0

    def seq(self, nodes, j, i, k):
        if j == len(nodes):
            return k(i)
        node = nodes[j]
        op = node[0]
        nxt = lambda e: self.seq(nodes, j + 1, e, k)
        if op == "chr":
            if i < self.n and self.ask(i, node[1]):
                return nxt(i + 1)
            return None
        if op == "alt":
            for b in node[1]:
                r = self.seq(b, 0, i, nxt)
                if r is not None:
                    return r
            return None
        if op == "grp":
            return self.seq(node[2], 0, i, nxt)
        if op == "rep":
            return self.rep(node, 0, i, nxt)
        if op == "atom":
            e = self.seq(node[1], 0, i, lambda x: x)
            return None if e is None else nxt(e)
        if op == "look":
            _, pos, d, w, sub = node
            s = i if d > 0 else i - w
            ok = s >= 0 and self.seq(sub, 0, s, lambda x: x) is not None
            return nxt(i) if ok == pos else None
        if op == "at":
            return nxt(i) if self.at(node[1], i) else None
        raise NotSupported(op)

    def rep(self, node, count, i, k):
        self.steps += 1
        if self.steps > 200000:
            raise NotSupported("too many steps")
        _, greedy, lo, hi, sub = node

        def more():
            if hi is not None and count >= hi:
                return None
            return self.seq(sub, 0, i,
                            lambda e: None if e == i and count >= lo else self.rep(node, count + 1, e, k))
        if count < lo:
            return more()
        if greedy:
            r = more()
            return k(i) if r is None else r
        r = k(i)
        return more() if r is None else r

    def word(self, i):
        return 0 <= i < self.n and self.ask(i, _WORD)

    def at(self, n, i):
        if n.startswith("M"):
            n = n[1:]
            if "BEGINNING" in n:
                return i == 0 or self.ask(i - 1, _NL)
            return i == self.n or self.ask(i, _NL)
        if n in ("AT_BEGINNING", "AT_BEGINNING_STRING", "AT_BEGINNING_LINE"):
            return i == 0
        if n == "AT_END":
            return i == self.n or (i == self.n - 1 and self.ask(i, _NL))
        if n == "AT_END_STRING":
            return i == self.n
        if n in ("AT_BOUNDARY", "AT_NON_BOUNDARY", "AT_UNI_BOUNDARY", "AT_UNI_NON_BOUNDARY"):
            b = self.word(i - 1) != self.word(i)
            return b != ("NON" in n)
        raise NotSupported(n)


_WORD = memo(lambda c: re.match(r"\w", c) is not None)
_NL = memo(lambda c: c == "\n")


def run(kind, tree, n, ask):
    """End of the match, or the spans of all the matches, for one string."""
    m = Matcher(n, ask)
    ident = lambda e: e
    if kind == "match":
        return m.seq(tree, 0, 0, ident)
    if kind == "fullmatch":
        return m.seq(tree, 0, 0, lambda e: e if e == n else None)
    out = []
    s = 0
    while s <= n:
        m.steps = 0
        e = m.seq(tree, 0, s, ident)
        if e is None:
            s += 1
            continue
        if kind == "search":
            return (s, e)
        out.append((s, e))
        if e == s:
            # empty match: `re` would also try a non-empty one at the same place
            raise NotSupported("empty match")
        s = e
    return None if kind == "search" else tuple(out)


def partition(kind, pat, n, fixed, comps, f):
    """Decision tree over comps for the result of f on the string.

    fixed: list of n characters or None; comps: list of (positions, list of
    character tuples).  Tree: (None, value) or (comp, [(tuples, subtree)])."""
    tree = parsed(pat)
    where = {}
    for c, (idxs, _) in enumerate(comps):
        for p, i in enumerate(idxs):
            where[i] = (c, p)
    budget = [4000]

    def node(cur):
        """cur: current list of tuples of each comp."""
        budget[0] -= 1
        if budget[0] < 0:
            raise NotSupported("too many classes")

        def ask(i, pred):
            ch = fixed[i]
            if ch is not None:
                return pred(ch)
            c, p = where[i]
            yes = no = False
            for t in cur[c]:
                if pred(t[p]):
                    yes = True
                else:
                    no = True
                if yes and no:
                    raise Need(i, pred)
            return yes
        try:
            end = run(kind, tree, n, ask)
        except Need as e:
            c, p = where[e.i]
            yes = [t for t in cur[c] if e.pred(t[p])]
            no = [t for t in cur[c] if not e.pred(t[p])]
            a = node(cur[:c] + [yes] + cur[c + 1:])
            b = node(cur[:c] + [no] + cur[c + 1:])
            return join(c, [(yes, a), (no, b)])
        s = list(fixed)
        for (idxs, _), ts in zip(comps, cur):
            for i, ch in zip(idxs, ts[0]):
                s[i] = ch
        val = f("".join(s))
        check(kind, end, val)
        return (None, val)
    return node([list(t) for _, t in comps])


def check(kind, end, val):
    if kind in ("match", "fullmatch"):
        ok = (val is None) == (end is None) and (end is None or val[0][0][1] == end)
    elif kind == "search":
        ok = (val is None) == (end is None) and (end is None or val[0][0] == end)
    else:
        ok = tuple(v[0][0] for v in val) == end
    if not ok:
        raise NotSupported("the matcher disagrees with re")


def join(c, branches):
    flat = []
    for ts, sub in branches:
        if sub[0] == c:
            flat += sub[1]
        else:
            flat.append((ts, sub))
    out = []
    for ts, sub in flat:
        for o in out:
            if o[1] == sub:
                o[0].extend(ts)
                break
        else:
            out.append((list(ts), sub))
    if len(out) == 1:
        return out[0][1]
    return (c, out)
