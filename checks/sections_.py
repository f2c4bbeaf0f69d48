"""C01, C02, C03, C20: sections, groups, what is decoded and what is not."""
import importlib
import itertools
import re

from contracts import contexts as cx
from contracts import extras, formats, grammar, plain_ops, prove, words
from contracts.prove import PLAIN, Failure
from pyvc import core, dfa, segs
from pyvc.core import Unsupported
from pyvc.rx import NotSupported

from . import common
from .common import Check, Task, report_task
from .defs import CHECKS, header_shapes, shape_tasks

CTX = ("metar", "trend", "taf", "change")
RUN = "evaluation of the code on each class of words"
AUTO = "inclusion of regular languages (automata)"
STEP = "loop invariant by induction over the word classes"
BATCH = 400


def cls_of(ctx):
    return importlib.import_module("aeromet_py").__dict__["Metar" if words.WHAT[ctx] == "metar" else "Taf"]


def judge(name, what, texts, differ, count, truncate=False):
    """Every text against the outcomes that the properties allow."""
    for k in range(0, len(texts), BATCH):
        part = texts[k:k + BATCH]
        ans = PLAIN.ask({"op": "summaries", "cls": what, "texts": part})
        if isinstance(ans, dict):
            raise Unsupported(f"the worker ended: {ans}")
        more = PLAIN.ask({"op": "truncated", "cls": what, "texts": part}) if truncate else [None] * len(part)
        count(len(part))
        for t, got, tr in zip(part, ans, more):
            bad = tr if truncate else differ(t, what, got)
            if bad:
                p, e, a = bad
                return Failure(f"{name} : {p}", f"{t!r}: {p} is {a!r}, expected {e!r}",
                               {"report": t, "class": what, "year": 2022, "month": 3, "truncate": truncate, "observer": p,
                                "expected": repr(e), "actual": repr(a)})
    return None


def proved(st, backend):
    return lambda n: st.decided(backend, n)


def tested(st):
    def f(n):
        st.bounded += n
    return f


# ------------------------------------------------------------------ C02

def slot_task(ctx):
    """Each kind of group accepts its format and nothing else, for all words."""
    name = f"formats of the groups of {ctx}"

    def run(st):
        st.names.add(name)
        cls = cls_of(ctx)
        try:
            pats = words.patterns(cls, ctx)
            order = formats.ORDER[ctx]
            if len(pats) != len(order):
                raise NotSupported(f"{len(pats)} regular expressions for {len(order)} kinds of groups")
            for j, ((kind, pat), k) in enumerate(zip(pats, order)):
                f = slot(st, cls, ctx, j, kind, pat, k)
                if f:
                    return f
        except NotSupported as e:
            st.unsupported.append((name, str(e)))
            return fallback(st)
        return None

    def slot(st, cls, ctx, j, kind, pat, k):
        code = dfa.Lang(kind, pat)
        must = dfa.Lang("fullmatch", formats.must(ctx, k) or "(?!)x") if formats.must(ctx, k) else None
        may = dfa.Lang("fullmatch", formats.may(ctx, k)) if formats.may(ctx, k) else None
        langs = [code] + [x for x in (must, may) if x]
        cl, n = dfa.classes(langs, words=6, rng=common.rng(name + k))
        st.rows += n
        wit = []
        for sig, ws in cl.items():
            a = sig[0]
            b, c = (sig[1], sig[2]) if must else (False, False)
            if (b and not a) or (a and not c):
                wit += [(w, "decoded" if b else "not decoded") for w in ws]
        st.decided(AUTO, 2, not wit)
        if wit:
            f = back(st, ctx, j, wit)
            if f:
                return f
            st.unsupported.append((name, f"{k}: {wit[0]} does not replay"))
        if k in formats.JOINS[ctx]:
            alpha = dfa.ALPHABET + "_"
            cl, n = dfa.classes([dfa.Lang(kind, pat, alphabet=alpha),
                                 dfa.Lang("fullmatch", formats.JOINED[k].replace(" ", "_"), alphabet=alpha)], alpha, words=6)
            wit = [(w.replace("_", " "), "decoded") for sig, ws in cl.items() if sig[1] and not sig[0] for w in ws]
            st.decided(AUTO, 1, not wit)
            if wit:
                f = back(st, ctx, j, wit)
                if f:
                    return f
                st.unsupported.append((name, f"{k}: {wit[0]} does not replay"))
        return None

    def back(st, ctx, j, wit):
        texts = [words.text(ctx, p + w.split(" ")) for w, _ in wit for p in words.prefixes(ctx, j)]
        st.samples += len(texts)
        return judge(name, words.WHAT[ctx], texts, words.differs, lambda n: None)

    def fallback(st):
        r = common.rng(name)
        texts = []
        for w in words.mutants(r, 4000):
            if not words.keyword(ctx, w):
                j = r.randrange(len(formats.ORDER[ctx]))
                texts.append(words.text(ctx, words.prefixes(ctx, j)[-1] + [w]))
        return judge(name, words.WHAT[ctx], texts, words.differs, tested(st))
    return Task(name, run, lambda st: fallback(st), cost=2)


def member_task(ctx, i):
    """Every class of words after every place of the order."""
    o = formats.ORDER[ctx]
    name = f"words of {ctx} after {'the start' if i == 0 else o[i - 1] + ' ' + str(i)}"

    def run(st):
        st.names.add(name)
        cls = cls_of(ctx)
        r = common.rng(name)
        try:
            cs, _ = words.case_split(cls, ctx, r, 6)
        except NotSupported as e:
            st.unsupported.append((name, str(e)))
            cs = []
        seen = [w for ws in cs for w in ws if not words.keyword(ctx, w)] + [
            w for w in words.pool(cls, ctx, r) if not words.keyword(ctx, w)]
        texts = [words.text(ctx, p + [w]) for p in words.prefixes(ctx, i) for w in dict.fromkeys(seen)]
        f = judge(name, words.WHAT[ctx], texts, words.differs, proved(st, RUN))
        if f:
            return f
        ms = [w for w in words.mutants(r, 150) if not words.keyword(ctx, w)]
        return judge(name, words.WHAT[ctx], [words.text(ctx, words.prefixes(ctx, i)[-1] + [w]) for w in ms], words.differs,
                     tested(st))
    return Task(name, run)


def header_word_task():
    """The words at the beginning of a section: malformed indicators."""
    name = "malformed change indicators"

    def run(st):
        texts = {"metar": [], "taf": []}
        for w in ("FM07140", "FM0714000", "FM071460", "FM072400", "FM320000", "FM001200", "FM", "FM1200", "FM07140Z", "PROB20",
                  "PROB50", "PROB300", "PROB3", "PROB", "PROB40X", "BECMGX", "TEMPO1", "FMFMFM", "FM071400KT", "PROB3O"):
            for more in ([], ["27010KT"], ["0714/0716", "27010KT", "XX"]):
                texts["taf"].append(words.text("change", [w] + more))
        for w in ("FM2500", "FM1260", "FM120", "FM12000", "TL2401", "TL2400", "AT0000", "AT00", "AT24", "XX1200", "FM1200Z",
                  "UNTIL1200", "FM071200"):
            for ind in ("TEMPO", "BECMG"):
                texts["metar"].append(words.text("trend", [ind, w, "27010KT"]))
                texts["metar"].append(words.text("trend", [ind, "FM1200", w, "27010KT"]))
        for k in texts:
            f = judge(name, k, texts[k], words.differs, tested(st))
            if f:
                return f
        return None
    return Task(name, run)


def c02(tier):
    for c in CTX:
        yield slot_task(c)
        for i in range(len(formats.ORDER[c])):
            yield member_task(c, i)
    yield header_word_task()


CHECKS["C02"] = Check(c02, explanation="for every place of the standard order, the language that the code accepts (the regular "
                      "expression that it applies to the groups of that place, captured while it runs) contains every documented "
                      "text and no undocumented one, for words of any length (automata); and one run for each class of words "
                      "after each place. Bounded: groups with a character missing, added or changed",
                      assumptions=["which kind a group is given to depends on the text of the group only through the regular "
                                   "expressions that the code applies to it (checked on the words of each class and on random "
                                   "malformed groups)"])


# ------------------------------------------------------------------ C01

def invariant_task(ctx):
    """The state of the loop is the place in the standard order, whatever was read before."""
    name = f"order of the groups of {ctx}"

    def run(st):
        st.names.add(name)
        cls = cls_of(ctx)
        r = common.rng(name)
        probe = "%%%"
        head = {}
        try:
            pool = words.pool(cls, ctx, r)
        except NotSupported as e:
            raise Unsupported(str(e))
        n = len(formats.ORDER[ctx])

        def state(section):
            w = words.watch(cls, words.text(ctx, section + [probe]))
            pats, local = w.of(probe)
            return tuple((k, p.pattern) for k, p in pats), local

        def place(section):
            gs = formats.groups(section, ctx)
            out = set()
            for dec, left in formats.readings(gs, ctx):
                out.add(_place(dec, ctx))
            return out
        first = [FIRST[ctx]] if ctx in FIRST else []
        for i in range(n + 1):
            for p in words.prefixes(ctx, i):
                for w in [None] + pool:
                    sec = (p or first) + ([] if w is None else w.split(" "))
                    js = place(sec)
                    if len(js) > 1:
                        continue
                    j = js.pop()
                    s = state(sec)
                    if j not in head:
                        head[j] = (s, sec)
                    ok = head[j][0] == s
                    st.decided(STEP, ok=ok)
                    if not ok:
                        f = back(st, head[j][1], sec)
                        if f:
                            return f
                        raise Unsupported(f"the state after {sec} and {head[j][1]} is not the same")
        return None

    def back(st, a, b):
        """The two histories with every word after them."""
        cls = cls_of(ctx)
        pool = words.pool(cls, ctx, common.rng(name), 2)
        texts = [words.text(ctx, x + [w]) for x in (a, b) for w in pool]
        st.samples += len(texts)
        return judge(name, words.WHAT[ctx], texts, words.differs, lambda n: None)
    return Task(name, run, lambda st: pairs(st, name, ctx, 1500), cost=9)


FIRST = {"trend": "TEMPO", "change": "TEMPO"}


def _place(dec, ctx):
    order = formats.ORDER[ctx]
    i = 0
    for k, _ in dec:
        i = order.index(k, i) + 1
    return i


def pairs(st, name, ctx, n):
    """Bounded: random sections."""
    r = common.rng(name + "random")
    cls = cls_of(ctx)
    pool = words.pool(cls, ctx, r, 2)
    texts = [random_text(r, ctx, pool) for _ in range(n)]
    return judge(name, words.WHAT[ctx], texts, words.differs, tested(st))


def random_section(r, ctx, pool):
    full = words.FULL[ctx]
    out = []
    if ctx in FIRST:
        out = [r.choice(["TEMPO", "BECMG"] if ctx == "trend" else ["TEMPO", "BECMG", "PROB30", "PROB40 TEMPO", "FM071400"])]
    k = 0
    body = full[1:] if ctx in FIRST else full
    p = r.random()
    for w in body:
        if r.random() < 0.2:
            out.append(r.choice(pool))
            if r.random() < 0.3:
                out.append(out[-1])
        if r.random() < p:
            out.append(w)
    if r.random() < 0.4:
        i = r.randrange(1, len(out) + 1) if out else 0
        out.insert(i, r.choice(pool))
    if r.random() < 0.2 and len(out) > 3:
        i = r.randrange(1, len(out) - 1)
        out[i], out[i + 1] = out[i + 1], out[i]
    return out or ["XXXX"]


def random_text(r, ctx, pool):
    if ctx in ("metar", "taf"):
        return " ".join(random_section(r, ctx, pool))
    secs = words.HEAD[ctx] + ([r.choice(pool)] if r.random() < 0.3 else [])
    out = [" ".join(secs)]
    for _ in range(r.randrange(1, 3 if ctx == "trend" else 6)):
        out.append(" ".join(random_section(r, ctx, pool)))
    if ctx == "trend" and len(out) == 3:
        # the second trend needs something after its indicator
        out[2] = out[2] if " " in out[2] else out[2] + " 2000"
    t = " ".join(out)
    if ctx == "trend" and r.random() < 0.3:
        t += " RMK XX 25010KT"
    return t


def two_task(ctx, i):
    """Two words of every class after each place."""
    name = f"two words of {ctx} after place {i}"

    def run(st):
        st.names.add(name)
        cls = cls_of(ctx)
        r = common.rng(name)
        pool = words.pool(cls, ctx, r)
        p = words.prefixes(ctx, i)[-1] or ([FIRST[ctx]] if ctx in FIRST else [])
        texts = [words.text(ctx, p + [a, b]) for a in pool for b in pool]
        # a text whose indicator is the last word is not of interest
        f = judge(name, words.WHAT[ctx], texts, words.differs, proved(st, RUN))
        return f or judge(name, words.WHAT[ctx], [random_text(r, ctx, pool) for _ in range(60)], words.differs, tested(st))
    return Task(name, run, cost=4)


# ---------------------------------------------------------------- unknown words

WORDSIDE = "evaluation of the code on unknown words (complements of the documented formats, automata)"
_OUT = {}


def outside(ctx, i, slot, alone):
    """A part that stands for any word which no place from i on may take.

    alone: the words that the code may join with the next one left out."""
    key = (ctx, i, alone)
    if key not in _OUT:
        pats = [formats.may(ctx, k) for k in formats.ORDER[ctx][i:]] + (["[0-9]{1,2}", "WS"] if not alone else [])
        langs = [dfa.Lang("fullmatch", p, alphabet=segs.ALPHA) for p in dict.fromkeys(pats) if p]
        langs += [dfa.Lang("match", k, alphabet=segs.ALPHA) for k in words.KEYS[ctx]]
        _OUT[key] = segs.Outside(langs)
    return segs.part(1000 + CTX.index(ctx) * 400 + i * 8 + slot * 2 + alone, _OUT[key])


def after(ctx, section):
    """The first place that is open after these groups."""
    return min(_place(dec, ctx) for dec, _ in formats.readings(formats.groups(section, ctx), ctx))


def unknown_sections(ctx, i):
    """Sections with unknown words after the place i."""
    full = words.FULL[ctx]
    first = [FIRST[ctx]] if ctx in FIRST else []
    for p in words.prefixes(ctx, i):
        p = p or first
        j = after(ctx, p)
        a, b, z = outside(ctx, j, 0, 0), outside(ctx, j, 1, 0), outside(ctx, j, 2, 1)
        for x in ([z], [a, z], [a, a], [a, b, z], [b, a, b]):
            yield p + x
        rest = full[max(i, 1) if ctx in FIRST else i:]
        for x in ([a], [a, b], [a, a]):
            yield p + x + rest
            for n in range(1, len(rest)):
                yield p + x + rest[n:n + 1] + [outside(ctx, after(ctx, p + rest[n:n + 1]), 3, 1)]


def everywhere(ctx):
    """Unknown words in all the places at once."""
    full = words.FULL[ctx]
    for n in (1, 2):
        out = []
        for i, g in enumerate([None] + full):
            if g:
                out.append(g)
            if ctx not in FIRST or i:
                out += [outside(ctx, after(ctx, full[:i]), x, 0) for x in range(n)]
        yield out


def unknown_summary(cls, what, t, truncate=False):
    p = lambda x: (segs.plain(x) if isinstance(x, str) else [p(y) for y in x] if isinstance(x, (list, tuple))
                   else {k: p(v) for k, v in x.items()} if isinstance(x, dict) else x)
    core.CTX.hooks["segments"] = True
    try:
        o = cls(segs.wrap(t), year=2022, month=3, **({"truncate": True} if truncate else {}))
        return p(plain_ops.summary_of(o, what))
    except core.Control:
        raise
    except segs.Cut as e:
        raise Unsupported(f"{t!r}: depends on the unknown words: {e}")
    except Exception as e:
        return {"raised": type(e).__name__, "text": p(e.args[0] if e.args and isinstance(e.args[0], str) else str(e))}
    finally:
        core.CTX.hooks.pop("segments", None)


def unknown_differs(cls, what, t, truncate):
    got = unknown_summary(cls, what, t)
    if not truncate:
        return words.differs(t, what, got)
    cut = unknown_summary(cls, what, t, True)
    if "raised" in got:
        return None
    if not got["unparsed"]:
        return ("with truncate", got, cut) if cut != got else None
    if cut.get("raised") != "ParserError":
        return "construction with truncate", "ParserError", cut.get("raised") or "a report"
    return plain_ops.message(cut["text"], got["unparsed"], got["raw"])


def unknown_task(ctx, label, make, truncate=False):
    name = f"unknown words of {ctx} {label}" + (" with truncate" if truncate else "")
    what = words.WHAT[ctx]

    def instances(st, texts, n, count):
        r = common.rng(name)
        ts = [segs.concrete(t, lambda k: k.sample(r, r.randrange(1, 9))) for t in texts for _ in range(n)]
        return judge(name, what, ts, None if truncate else words.differs, count, truncate)

    def run(st):
        st.names.add(name)
        cls = cls_of(ctx)
        bad = []
        for sec in make():
            t = words.text(ctx, sec)
            d = unknown_differs(cls, what, t, truncate)
            st.decided(WORDSIDE, 1, not d)
            if d:
                bad.append((t, d))
                if len(bad) >= 5:
                    break
        if not bad:
            return None
        f = instances(st, [t for t, _ in bad], 60, lambda n: None)
        if f:
            return f
        raise Unsupported(f"{bad[0]} does not replay")

    return Task(name, run, lambda st: instances(st, [words.text(ctx, s) for s in make()], 20, tested(st)))


def unknown_tasks(truncate=False):
    for c in CTX:
        for i in range(1 if c in FIRST else 0, len(formats.ORDER[c]) + 1):
            yield unknown_task(c, f"after place {i}", lambda c=c, i=i: unknown_sections(c, i), truncate)
        yield unknown_task(c, "everywhere", lambda c=c: everywhere(c), truncate)


def many_task(k):
    """Sections with unparsed groups in all the places."""
    name = f"reports with unparsed groups {k}"

    def run(st):
        r = common.rng(name)
        for ctx in CTX:
            pool = words.pool(cls_of(ctx), ctx, r, 2)
            f = judge(name, words.WHAT[ctx], [random_text(r, ctx, pool) for _ in range(250)], words.differs, tested(st))
            if f:
                return f
        return None
    return Task(name, run)


def c01(tier):
    for c in CTX:
        yield invariant_task(c)
        for i in range(len(formats.ORDER[c]) + 1):
            yield two_task(c, i)
    yield from unknown_tasks()
    for k in range(8 if tier == "quick" else 80):
        yield many_task(k)


CHECKS["C01"] = Check(c01, explanation="the reading of a section as a loop over its words: the state of the loop (its variables "
                      "and the regular expressions that it would apply next) is a function of the place in the standard order "
                      "only, for every place and every class of words (induction), and what each word, and each pair of words, "
                      "of every class gives after every place is what the specification says. Bounded: random reports",
                      assumptions=["which kind a group is given to depends on the text of the group only through the regular "
                                   "expressions that the code applies to it",
                                   "more than two trends, and indicators without groups at the end of a METAR, are left open"])


# ------------------------------------------------------------------ C03

def trunc_task(ctx, i):
    name = f"truncate with words of {ctx} after place {i}"

    def run(st):
        st.names.add(name)
        r = common.rng(name)
        pool = words.pool(cls_of(ctx), ctx, r, 2)
        p = words.prefixes(ctx, i)[0] or ([FIRST[ctx]] if ctx in FIRST else [])
        texts = [words.text(ctx, p + [w]) for w in pool]
        f = judge(name, words.WHAT[ctx], texts, None, proved(st, RUN), True)
        return f or judge(name, words.WHAT[ctx], [random_text(r, ctx, pool) for _ in range(60)], None, tested(st), True)
    return Task(name, run, cost=2)


def trunc_places(k):
    """Unparsed groups in every combination of the body and the sections."""
    name = f"truncate with unparsed groups in the sections {k}"

    def run(st):
        st.names.add(name)
        texts = {"metar": [], "taf": []}
        for junk in (["XXXX"], ["XX", "Y{}"], ["{}", "%s"], ["1 1/2SM", "X,Y"], ["A\\1", "%d%%"])[k:k + 1]:
            j = " " + " ".join(junk)
            for flags in itertools.product((0, 1), repeat=3):
                b, s1, s2 = (j if x else "" for x in flags)
                texts["metar"] += [f"METAR PANC 071200Z 09005KT 9999 FEW040{b}{x}" for x in (
                    "", " NOSIG" + s1, f" TEMPO 2000{s1}", f" TEMPO 2000{s1} BECMG 27010KT{s2}",
                    f" BECMG FM1300 2000{s1} TEMPO 27010KT{s2} RMK A2 ZZ")]
            for flags in itertools.product((0, 1), repeat=4):
                b, s1, s2, s3 = (j if x else "" for x in flags)
                texts["taf"] += [f"TAF PANC 071130Z 0712/0812 09005KT 9999 FEW040{b}{x}" for x in (
                    "", f" TEMPO 0714/0716 2000{s1} PROB30 TEMPO 0718/0720 3000{s2} FM080000 27010KT{s3}",
                    f" FM071400 2000{s1} BECMG 0718/0720 3000{s2} PROB40 0800/0802 27010KT{s3}")]
        for what in texts:
            f = judge(name, what, list(dict.fromkeys(texts[what])), None, proved(st, RUN), True)
            if f:
                return f
        return None
    return Task(name, run, cost=2)


def c03(tier):
    for c in CTX:
        for i in range(len(formats.ORDER[c]) + 1):
            yield trunc_task(c, i)
    yield from unknown_tasks(True)
    for k in range(5):
        yield trunc_places(k)
    kinds = list(cx.grammar.KINDS)
    keep = lambda o: o.attr in ("code", "codes", "unparsed_groups")
    ctxs = ["metar-full", "trend-second", "taf-full", "change-second"] if tier == "quick" else list(cx.CONTEXTS)
    for t in shape_tasks(tier, kinds, keep, contexts=ctxs, truncate=True):
        if tier == "quick" and t.name.startswith(("rvr", "vis", "minvis")) and not t.name.startswith(
                ("rvr 4VNone ", "rvr 3V2FT ", "vis CAVOK", "vis 1SM")):
            continue
        yield t


def shape_tasks(tier, kinds, keep, contexts, **kw):
    for name, f, k, g in cx.shapes(kinds, contexts):
        yield report_task(name + " with truncate", lambda f=f, k=k, g=g: f(k, g), keep, **kw)
    for t in header_shapes():
        yield report_task(t[0] + " with truncate", t[1], keep, **kw)


CHECKS["C03"] = Check(c03, explanation="reports with words of every class, in every section, built with truncate and without it: "
                      "ParserError if and only if something is unparsed, with all the groups in order and the text of the report "
                      "in its message, and the same readings when nothing is unparsed; for every well-formed report of the "
                      "shapes, symbolically, truncate raises nothing and changes nothing",
                      assumptions=["that something is unparsed depends on the text of a group only through the regular "
                                   "expressions that the code applies to it"])


# ------------------------------------------------------------------ C20

WORDS = {"metar": ["PANC", "NOSIG", "TEMPO", "BECMG", "RMK", "RMKS", "XTEMPO", "FM1200", "PROB30", "TEMPORARY", "AO2", "4000",
                   "NOSI", "EMPO", "RM"],
         "taf": ["PANC", "FMCH", "FM071400", "TEMPO", "BECMG", "PROB30", "PROB40", "PROB50", "COR", "TAF", "XFM", "APROB30",
                 "RMK", "NOSIG", "4000", "PRO", "F"]}
STARTS = {"metar": [[], ["METAR"], ["METAR", "PANC", "071200Z"], ["SPECI", "PANC"]],
          "taf": [[], ["TAF"], ["TAF", "PANC", "071130Z"], ["TAF", "COR"], ["TAF", "AMD", "FMEE"], ["TAF", "FMCH"]]}
BLANKS = [" ", " ", " ", "  ", "\n", "\t", " \n", "\n\n", "\t\t", "\n \t", "   "]


def section_task(what, s, w):
    name = f"sections of {what} {' '.join(s)} {w}"

    def run(st):
        st.names.add(name)
        ws = WORDS[what]
        texts = []
        for n in (0, 1, 2):
            for seq in itertools.product(ws, repeat=n):
                texts.append(" ".join(s + [w] + list(seq)))
        if len(s) == 3:
            for seq in itertools.product([x for x in ws if formats.METAR_KEYS and (words.keyword(what, x) or x == "PANC")],
                                         repeat=3):
                texts.append(" ".join(s + [w] + list(seq)))
        f = judge(name, what, texts, words.differs_sections, tested(st))
        if f:
            return f
        r = common.rng(name)
        texts = []
        for _ in range(600):
            t = r.choice(["", "", " ", "\n", "\t ", "  \n"])
            seq = s + [w] + [r.choice(ws) for _ in range(r.randrange(12))]
            for k, x in enumerate(seq):
                if k:
                    t += r.choice(BLANKS)
                t += x
                if r.random() < 0.05:
                    t += "="
            t += r.choice(["", "", "=", " ", "=\n", " \n\n", "=="])
            texts.append(t)
        return judge(name, what, texts, words.differs_sections, tested(st))
    return Task(name, run)


class Unknown:
    """Parts of texts: S(n) runs of words, N(n) the rest of a word, Q(n) the rest of a word other than 30 or 40."""

    def __init__(self, what):
        keys = formats.METAR_KEYS if what == "metar" else formats.TAF_KEYS
        b = 0 if what == "metar" else 200
        w = segs.Words(keys)
        n = segs.Word()
        q = segs.Word({"30", "40"})
        self.S = [segs.part(b + i, w) for i in range(6)]
        self.N = [segs.part(b + 20 + i, n) for i in range(6)]
        self.Q = [segs.part(b + 40 + i, q) for i in range(6)]
        odd = {"PROB30", "PROB40"}
        # the station, after a beginning
        self.W = {"": segs.part(b + 60, segs.Word(odd | {"TAF", "COR", "AMD"})),
                  "TAF": segs.part(b + 61, segs.Word(odd | {"COR", "AMD"})), "COR": segs.part(b + 62, segs.Word(odd))}

    def sections(self, i, ks):
        """The forms of the section i: a keyword, and words after it."""
        out = []
        for k in ks:
            k = k.replace("+", self.N[i]).replace("?", self.Q[i])
            out += [[k], [k, self.S[i + 1]]]
        return out

    def texts(self, n, ks):
        return [sum(x, []) for x in itertools.product(*[self.sections(i, ks) for i in range(n)])]


METAR_ALL = [k + x for k in formats.METAR_KEYS for x in ("", "+")]
TAF_ALL = ["FM", "FM+", "TEMPO", "TEMPO+", "BECMG", "BECMG+", "PROB", "PROB30", "PROB40", "PROB?"]
TAF_HEADS = [[], ["TAF"], ["COR"], ["AMD"], ["TAF", "COR"], ["TAF", "AMD"]]
PROVED = "evaluation of the code on texts with unknown parts (regular languages, automata)"


def unbounded_texts(what):
    """(name, function giving the texts)."""
    def metar(n, ks, body):
        def f():
            u = Unknown("metar")
            return [" ".join(b + t) for b in ([[u.S[0]]] if body else [[]]) for t in u.texts(n, ks) if b or t]
        return f

    def taf(head, n, ks, bodies=(0, 1), station=None):
        def f():
            u = Unknown("taf")
            w = station or u.W["COR" if head[-1:] in (["COR"], ["AMD"]) else "TAF" if head else ""]
            return [" ".join(head + [w] + ([u.S[0]] if b else []) + t) for b in bodies for t in u.texts(n, ks)]
        return f

    def blanks(first, ks, sep):
        def f():
            u = Unknown(what)
            out = []
            for t in u.texts(1, ks):
                t = [u.W["TAF"] if x == "W" else u.S[0] if x == "S" else x for x in first] + t
                for k in range(1, len(t)):
                    for end in ("", sep, "="):
                        out.append(" ".join(t[:k]) + sep + " ".join(t[k:]) + end)
                        out.append(sep + " ".join(t[:k]) + "=" + sep + " ".join(t[k:]) + "=" + end)
                out.append(sep + sep.join(t) + sep)
            return out
        return f
    if what == "metar":
        for body in (0, 1):
            for n in range(3):
                yield f"{n} sections {'after a body' if body else ''}", metar(n, METAR_ALL, body)
            yield f"3 sections {'after a body' if body else ''}", metar(3, formats.METAR_KEYS, body)
        for k in formats.METAR_KEYS:
            u = Unknown(what)
            yield f"4 sections, {k} the first", lambda k=k, u=u: [
                " ".join([u.S[0]] + a + sum(t, [])) for a in u.sections(0, [k])
                for t in itertools.product(*[u.sections(i, formats.METAR_KEYS) for i in (1, 2, 3)])]
        for sep in SEPS:
            yield f"separated by {sep!r}", blanks(["S"], METAR_ALL, sep)
    else:
        for h in TAF_HEADS:
            for n in range(2):
                yield f"{n} changes after {' '.join(h)}", taf(h, n, TAF_ALL)
                for w in ("PROB30", "PROB40"):
                    yield f"{n} changes after {' '.join(h)} {w}", taf(h, n, TAF_ALL, station=w)
            for b in (0, 1):
                yield f"2 changes after {' '.join(h)} {'and a body' if b else ''}", taf(h, 2, TAF_ALL, (b,))
        few = ["FM+", "TEMPO", "BECMG", "PROB30", "PROB40", "TEMPO+"]
        u = Unknown(what)
        for n, ks in ((3, few), (4, ["FM+", "TEMPO", "BECMG", "PROB30"])):
            for k in ks:
                yield f"{n} changes, {k} the first", lambda n=n, k=k, ks=ks, u=u: [
                    " ".join(["TAF", u.W["TAF"], u.S[0]] + a + sum(t, [])) for a in u.sections(0, [k])
                    for t in itertools.product(*[u.sections(i, ks) for i in range(1, n)])]
        for sep in SEPS:
            yield f"separated by {sep!r}", blanks(["TAF", "W", "S"], TAF_ALL, sep)
            yield f"separated by {sep!r}, without TAF", blanks(["COR", "W"], TAF_ALL, sep)


SEPS = ("  ", "\n", "\t", " \n ", "\t\t", "\n\n ")


def reading(cls, what, t):
    """What the code has separated when it gets to something that depends on the unknown words."""
    o = cls.__new__(cls)
    core.CTX.hooks["segments"] = True
    why = None
    try:
        try:
            o.__init__(segs.wrap(t), year=2022, month=3)
        except segs.Cut as e:
            why = str(e)
        except core.Control:
            raise
        except Exception as e:
            why = type(e).__name__ + ": " + str(e)
        try:
            names = ["body", "trend", "remark"] if what == "metar" else ["body", "weather_changes"]
            p = segs.plain
            return {"raw": p(o.raw_code), "texts": [p(getattr(o, n)) for n in names], "parts": [p(x) for x in o.sections]}, why
        except core.Control:
            raise
        except (Exception, segs.Cut) as e:
            return None, why or str(e)
    finally:
        core.CTX.hooks.pop("segments", None)


def unbounded_task(what, label, make):
    """The sections of texts with unknown words, however many."""
    name = f"sections of {what} with {label}"

    def run(st):
        st.names.add(name)
        cls = cls_of(what)
        bad = []
        for t in make():
            got, why = reading(cls, what, t)
            if got is None:
                raise Unsupported(f"the sections of {t!r} depend on the words: {why}")
            body, secs, rmk = formats.sections(formats.normal(t).split(), what)
            exp = {"words": {"body": body, "sections": [" ".join(x) for x in secs], "remark": rmk}}
            d = words.differs_sections(t, what, got, exp)
            st.decided(PROVED, 2 + len(got["texts"]), not d)
            if d:
                bad.append((t, d))
                if len(bad) >= 5:
                    break
        if not bad:
            return None
        r = common.rng(name)
        f = judge(name, what, [segs.concrete(t, lambda k: instance(k, r)) for t, _ in bad for _ in range(40)],
                  words.differs_sections, lambda n: None)
        if f:
            return f
        raise Unsupported(f"{bad[0]} does not replay")
    return Task(name, run, lambda st: loose(st, what, make, name), cost=2)


def instance(kind, r):
    """A text of the kind."""
    while True:
        if isinstance(kind, segs.Words):
            t = " ".join(r.choice(["PANC", "4000", "071200Z", "XX", "AO2", "A", "9999", "XTEMPO", "09005KT", "BR"])
                         for _ in range(r.randrange(1, 4)))
        else:
            t = r.choice(["071400", "X", "S", "1200", "CH", "EE", "50", "A", "PANC", "FMCH", "LEMD"])
        s = kind.start
        for c in t:
            s = kind.step(s, c)
            if s is None:
                break
        if s is not None and kind.final(s):
            return t


def loose(st, what, make, name):
    """Bounded: some values of the unknown words."""
    r = common.rng(name + " instances")
    ts = make()
    texts = [segs.concrete(t, lambda k: instance(k, r)) for t in (ts if len(ts) < 300 else r.sample(ts, 300))]
    return judge(name, what, texts, words.differs_sections, tested(st))


def c20(tier):
    for what in WORDS:
        for label, make in unbounded_texts(what):
            yield unbounded_task(what, label, make)
    for what in WORDS:
        for s in STARTS[what]:
            for w in WORDS[what]:
                yield section_task(what, s, w)


CHECKS["C20"] = Check(c20, explanation="texts with up to four sections, each a keyword (whole, or with any ending) followed by any "
                      "number of any words, after every beginning and any body: the code runs on texts whose unknown parts stand "
                      "for all the words of a regular language, and only through operations that automata show to be the same for "
                      "all of them, up to the place where the sections are separated. The blanks between the parts and '=' next "
                      "to them are enumerated. Bounded: texts of up to fourteen words with all kinds of blanks and of '='",
                      assumptions=["what runs after the sections are separated does not change them (checked on the bounded texts)",
                                   "more than four sections, and more than two places with unusual blanks or '=', are only "
                                   "sampled"])
