"""C04: building and reading a report of any text."""
import itertools
import re

from contracts import acceptors, extras, prove, readers, words
from contracts import contexts as cx
from contracts.prove import PLAIN, Failure
from contracts.report import Rep
from pyvc import core, dfa, segs
from pyvc.core import Unsupported
from pyvc.rx import NotSupported

from . import common
from .common import Check, Task, report_task
from .defs import CHECKS, header_shapes, light_tasks
from .sections_ import AUTO, CTX, FIRST, RUN, WORDSIDE, cls_of, everywhere, random_text, tested, unknown_sections

none = lambda o: False
# words of a form above which it is cut, words of the other parts then
LIMIT = {"quick": (300, 2), "thorough": (100000, 8)}


def report(ctx, prefix, g):
    """The group in that section after those words."""
    from contracts.report import junk
    lead = [junk(w) for w in words.HEAD[ctx]]
    sec = [junk(w) for w in prefix] + [g]
    if ctx in ("metar", "taf"):
        return Rep(words.WHAT[ctx], lead + sec)
    return Rep(words.WHAT[ctx], lead, [sec])


def accepted_task(ctx, j, tier):
    """Every word that the code accepts in that place of the order."""
    k = words.formats.ORDER[ctx][j]
    name = f"accepted as {k} {j} of {ctx}"

    def run(st):
        try:
            pats = words.patterns(cls_of(ctx), ctx)
            if len(pats) != len(words.formats.ORDER[ctx]):
                raise NotSupported("the regular expressions are not one for each kind")
            must = words.formats.must(ctx, k)
            if must:
                # only well-formed groups, that have their shapes
                cl, n = dfa.classes([dfa.Lang(*pats[j]), dfa.Lang("fullmatch", must)])
                if all(sig[1] for sig in cl if sig[0]):
                    st.names.add(name)
                    st.decided(AUTO)
                    return None
            shapes = list(acceptors.shapes(pats[j][1], re.compile(must) if must else None, *LIMIT[tier]))
        except NotSupported as e:
            st.unsupported.append((name, str(e)))
            return None
        # the first of the places of the kind: no more groups of it than the report may have
        before = words.prefixes(ctx, words.formats.ORDER[ctx].index(k) if k == "ttemp" else j)[-1]
        for n, g in shapes:
            rep = report(ctx, before, g())
            f = prove.check_report(rep, f"{name}, form {n}", none, st, False, extras.Readers("total"))
            if f:
                return f
        return None
    return Task(name, run, cost={"rvr": 6, "vis": 4, "wind": 4}.get(k, 2))


def judge(name, what, texts, count, years=((2022, 3),)):
    for k in range(0, len(texts), 100):
        part = texts[k:k + 100]
        for y, m in years:
            ans = PLAIN.ask({"op": "total", "cls": what, "texts": part, "year": y, "month": m})
            if isinstance(ans, dict):
                raise Unsupported(f"the worker ended: {ans}")
            count(len(part))
            for t, bad in zip(part, ans):
                if bad:
                    return Failure(f"{name} : {bad['path']}", f"{t!r}: {bad['path']}: {bad['actual']}",
                                   {"report": t, "class": what, "year": y, "month": m, "observer": bad["path"],
                                    "expected": "no exception and nothing printed", "actual": bad["actual"]})
    return None


def class_task(ctx, i):
    """One word of every class after that place."""
    name = f"words of {ctx} after place {i}"

    def run(st):
        st.names.add(name)
        r = common.rng(name)
        pool = words.pool(cls_of(ctx), ctx, r)
        p = words.prefixes(ctx, i)[-1]
        f = judge(name, words.WHAT[ctx], [words.text(ctx, p + [w]) for w in pool], lambda n: st.decided(RUN, n))
        return f or judge(name, words.WHAT[ctx], [random_text(r, ctx, pool) for _ in range(20)], tested(st))
    return Task(name, run, cost=2)


ODD = ["\x0b", "\x0c", "\x1c", "\x85", "\xa0", "\r", "\u2003"]
RAW = ["=", "==", " ", "\n", "\t", "TEMPO", "BECMG", "RMK", "NOSIG", "PROB30", "PROB40 TEMPO", "FM", "TAF", "METAR", "{}", "%s",
       "_", "__", "WS_", "1_1/2SM", "\u0661\u0662\u0663\u0664", "\u0660\u0667\u0661\u0662\u0660\u0660Z", "\x00", "\u00e9", "/", "//",
       "////", "0/0", "1/0SM", "///", "'", '"', "\\", "\\1", "(?P<x>)", "A" * 300]


def fuzz_task(k, tier):
    name = f"malformed texts {k}"

    def run(st):
        st.names.add(name)
        r = common.rng(name)
        pools = {c: words.pool(cls_of(c), c, r, 3) for c in CTX}
        if k == 0:
            for what in ("metar", "taf"):
                short = RAW + [a + b for a in "A0/ =\n_M" for b in "A0/ =\n_M"] + [chr(c) for c in range(1, 256)]
                f = judge(name, what, short, tested(st))
                if f:
                    return f
        texts = {"metar": [], "taf": []}
        for _ in range(110 if tier == "quick" else 900):
            ctx = r.choice(CTX)
            t = random_text(r, ctx, pools[ctx]).split(" ")
            for _ in range(r.randrange(5)):
                i = r.randrange(len(t) + 1)
                x = r.random()
                if x < 0.3:
                    t.insert(i, r.choice(RAW))
                elif x < 0.6:
                    t.insert(i, words.mutants(r, 1)[0])
                elif x < 0.7 and t:
                    t[i - 1:i + 1] = ["".join(t[i - 1:i + 1])]
                elif x < 0.8:
                    del t[i:]
                elif x < 0.9 and t:
                    t[i - 1] = t[i - 1][:r.randrange(len(t[i - 1]) + 1)]
                else:
                    t[i:] = t[:i]
            s = " ".join(t)
            if r.random() < 0.3:
                s = s.replace(" ", r.choice(ODD), r.randrange(3))
            if r.random() < 0.3:
                s = s[:r.randrange(len(s) + 1)]
            if s:
                texts[words.WHAT[ctx] if r.random() < 0.9 else r.choice(list(texts))].append(s)
        for what in texts:
            f = judge(name, what, texts[what], tested(st), ((2022, 3), (2023, 2)))
            if f:
                return f
        return None
    return Task(name, run, cost=2)


def unknown_task(ctx, label, make):
    """Unknown words: building, and reading everything."""
    name = f"unknown words of {ctx} {label}"
    what = words.WHAT[ctx]

    def run(st):
        st.names.add(name)
        cls = cls_of(ctx)
        bad = []
        for sec in make():
            t = words.text(ctx, sec)
            for truncate in (False, True):
                d = reads(cls, t, truncate, st)
                if d:
                    bad.append((t, d))
            if len(bad) >= 5:
                break
        if not bad:
            return None
        r = common.rng(name)
        f = judge(name, what, [segs.concrete(t, lambda k: k.sample(r, r.randrange(1, 9))) for t, _ in bad for _ in range(60)],
                  lambda n: None)
        if f:
            return f
        raise Unsupported(f"{bad[0]} does not replay")

    def standin(st):
        r = common.rng(name)
        return judge(name, what, [segs.concrete(words.text(ctx, s), lambda k: k.sample(r, r.randrange(1, 9)))
                                  for s in make() for _ in range(4)], tested(st))
    return Task(name, run, standin)


def reads(cls, t, truncate, st):
    """What fails, or None."""
    core.CTX.hooks["segments"] = True
    core.CTX.hooks.pop("printed", None)
    path = "construction"
    try:
        o = cls(segs.wrap(t), year=2022, month=3, **({"truncate": True} if truncate else {}))
        out = []
        readers.walk(o, "", out)
        st.decided(WORDSIDE)
        for path in out:
            try:
                prove.read(o, path)
                st.decided(WORDSIDE)
            except segs.Cut:
                # the number of characters is not known
                if not path.endswith("__len__"):
                    raise
    except core.Control:
        raise
    except segs.Cut as e:
        raise Unsupported(f"{t!r}: {path} depends on the unknown words: {e}")
    except Exception as e:
        if type(e).__name__ == "ParserError" and truncate and path == "construction":
            st.decided(WORDSIDE)
            return None
        return path, f"{type(e).__name__}: {e.args!r}"
    finally:
        core.CTX.hooks.pop("segments", None)
    if core.CTX.hooks.pop("printed", None):
        return "printed", "something"
    return None


def c04(tier):
    ex = lambda: extras.Readers("total")
    yield from light_tasks(tier, list(cx.grammar.KINDS), none, small="all", extra=ex())
    for t in header_shapes():
        yield report_task(t[0], t[1], none, extra=ex())
    for c in CTX:
        o = words.formats.ORDER[c]
        for j in range(len(o)):
            if o[j] == "station":
                continue        # all the known stations are in the shapes
            if tier != "quick" or o[j - 1:j] != o[j:j + 1] or j == len(o) - 1:
                yield accepted_task(c, j, tier)
        for i in range(len(o) + 1):
            yield class_task(c, i)
            if i or c not in FIRST:
                yield unknown_task(c, f"after place {i}", lambda c=c, i=i: itertools.islice(unknown_sections(c, i), 12))
        yield unknown_task(c, "everywhere", lambda c=c: everywhere(c))
    for k in range(16 if tier == "quick" else 160):
        yield fuzz_task(k, tier)


CHECKS["C04"] = Check(c04, explanation="no exception from building and from reading all of a report, and nothing printed: for "
                      "every well-formed group in each section, and for every word that the code accepts in each place of the "
                      "order (the language of its own regular expression, as symbolic groups; in the quick tier "
                      "every word of each part of it, not of all the parts at once), on every path of the code; for the words of every class after each place, one run each. Bounded: random malformed texts",
                      assumptions=["which kind a group is given to depends on the text of the group only through the regular "
                                   "expressions that the code applies to it",
                                   "exceptions allowed: RangeError for too many sections or temperatures, ValueError for a day "
                                   "that the month does not have"])
