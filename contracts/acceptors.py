"""Symbolic groups from the regular expressions that the code applies: every word that it may accept."""
import itertools
from re import _constants as K
from re import _parser

from pyvc.core import var
from pyvc.dfa import ALPHABET
from pyvc.rx import NotSupported, cls_pred

from .grammar import G

LEAF = 12000      # words of a repeated character class
JOINT = 1500      # words of a part of several pieces
MORE = 2          # repetitions beyond the minimum, where there is no maximum
CHARS = ALPHABET + "_"


def words(nodes, flags, cap):
    """The words of a sequence, or None if they are more than cap."""
    out = [""]
    for op, av in nodes:
        if op is K.AT:
            continue
        if op is K.LITERAL:
            ws = [chr(av)]
        elif op is K.NOT_LITERAL:
            ws = [c for c in CHARS if c != chr(av)]
        elif op is K.ANY:
            ws = list(CHARS)
        elif op is K.IN:
            p = cls_pred(av, flags)
            ws = [c for c in CHARS if p(c)]
        elif op is K.BRANCH:
            ws = []
            for x in av[1]:
                w = words(list(x), flags, cap)
                if w is None:
                    return None
                ws += w
        elif op is K.SUBPATTERN:
            if av[1] or av[2]:
                raise NotSupported("inline flags")
            ws = words(list(av[3]), flags, cap)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, x = av
            hi = min(hi, lo + MORE) if hi == K.MAXREPEAT else hi
            one = words(list(x), flags, cap)
            if one is None:
                return None
            ws, cur = [], [""]
            for n in range(hi + 1):
                if n >= lo:
                    ws += cur
                if n < hi:
                    if len(cur) * len(one) > cap * 4:
                        return None
                    cur = [a + b for a in cur for b in one]
        elif op in (K.ASSERT, K.ASSERT_NOT):
            ws = [""]          # more words than the code accepts: those are unparsed groups
        else:
            raise NotSupported(str(op))
        if ws is None or len(out) * len(ws) > cap:
            return None
        out = [a + b for a in out for b in ws]
    return list(dict.fromkeys(out))


def parts(nodes, flags):
    """Alternatives: lists of parts (a text, or a list of texts to choose from)."""
    out = [[]]
    for op, av in nodes:
        if op is K.AT:
            continue
        leaf = op in (K.MAX_REPEAT, K.MIN_REPEAT) and all(n[0] in (K.IN, K.LITERAL) for n in av[2])
        ws = words([(op, av)], flags, LEAF if leaf else JOINT)
        if ws is not None:
            alts = [[ws]]
        elif op is K.BRANCH:
            alts = [p for x in av[1] for p in parts(list(x), flags)]
        elif op is K.SUBPATTERN:
            alts = parts(list(av[3]), flags)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, x = av
            hi = min(hi, lo + MORE) if hi == K.MAXREPEAT else hi
            one = parts(list(x), flags)
            alts = []
            for n in range(lo, hi + 1):
                alts += [sum(c, []) for c in itertools.product(one, repeat=n)]
        else:
            raise NotSupported(str(op))
        out = [a + b for a in out for b in alts]
        if len(out) > 60:
            raise NotSupported("too many alternatives")
    return out


def fewer(ws, n):
    """Some words, with the first of the shortest and the last of the longest."""
    if len(ws) <= n:
        return ws
    w = sorted(ws, key=len)
    out = [w[0], [x for x in ws if len(x) == len(w[-1])][-1]]
    return list(dict.fromkeys(out + [ws[i * len(ws) // n] for i in range(1, n - 1)]))


def shapes(pattern, known=None, limit=None, few=2, small=5):
    """Groups whose instances are all the words that the expression may accept, without the ones
    that are `known`.

    With a limit, a form with more words than it is cut in several: one with all the words of the
    small parts, and one for each of the others with all its words, and `few` of the words of the rest."""
    flags = pattern.flags
    for n, p in enumerate(parts(list(_parser.parse(pattern.pattern, flags & ~32)), flags)):
        p = [[w.replace("_", " ") for w in ws] for ws in p]
        size = 1
        for ws in p:
            size *= len(ws)
        cut = [p]
        if limit and size > limit:
            less = [fewer(ws, few) for ws in p]
            cut = [[ws if len(ws) <= small else x for ws, x in zip(p, less)]] + [
                [ws if i == k else less[i] for i, ws in enumerate(p)] for k in range(len(p)) if len(p[k]) > small]
        for c in cut:
            c = others(c, known)
            if c:
                yield n, lambda c=c: G("junk", [var(f"part{k}", ws) for k, ws in enumerate(c)], {}, "accepted")


def others(c, known):
    """What is needed of the parts for the words that are not well-formed."""
    size = 1
    for ws in c:
        size *= len(ws)
    if not known or size > 1 << 18:
        return c
    keep = [set() for _ in c]
    for w in itertools.product(*c):
        if not known.fullmatch("".join(w)):
            for s, x in zip(keep, w):
                s.add(x)
    return [[w for w in ws if w in s] for ws, s in zip(c, keep)] if keep and keep[0] else None
