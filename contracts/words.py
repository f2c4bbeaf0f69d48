"""Words, sections and texts for the contracts about the reading of a report."""
import collections
import re
import sys

from pyvc import core, dfa
from pyvc.core import CTX
from pyvc.rx import NotSupported

from . import formats

# one group for each place of the standard order
FULL = {
    "metar": ["METAR", "PANC", "071200Z", "AUTO", "18015G25KT", "150V210", "4000", "1500SE", "R07L/0800U", "R25/1200FT",
              "R26C/P1500V2000D", "-RA", "BR", "VCSH", "SCT012", "BKN040CB", "FEW003", "OVC100", "12/M01", "Q1012", "A2992",
              "RETS", "WS R07", "WS R25C", "WS ALL RWY", "W12/S4", "R07/290055"],
    "trend": ["TEMPO", "FM1200", "TL1330", "27010KT", "2000", "+SHRA", "FG", "DZ", "FEW008", "OVC020", "SCT010", "BKN030"],
    "taf": ["TAF", "COR", "PANC", "071130Z", "NIL", "0712/0812", "CNL", "18015G25KT", "4000", "-RA", "BR", "VCSH", "SCT012",
            "BKN040CB", "FEW003", "OVC100", "TX12/0715Z", "TN01/0806Z", "TX13/0815Z", "TNM02/0805Z"],
    "change": ["TEMPO", "0714/0716", "27010KT", "2000", "+SHRA", "FG", "DZ", "FEW008", "OVC020", "SCT010", "BKN030"],
}
WHAT = {"metar": "metar", "trend": "metar", "taf": "taf", "change": "taf"}
HEAD = {"trend": ["METAR", "PANC", "071200Z", "09005KT", "9999"], "change": ["TAF", "PANC", "071130Z", "0712/0812", "09005KT"],
        "metar": [], "taf": []}
# a word whose group is tried against every kind of the section
PROBE = {"metar": "%%", "trend": "TEMPO%%", "taf": "%%", "change": "PROB%%"}
KINDS = {c: list(dict.fromkeys(o)) for c, o in formats.ORDER.items()}
KEYS = {"metar": formats.METAR_KEYS, "trend": formats.METAR_KEYS, "taf": formats.TAF_KEYS, "change": formats.TAF_KEYS}


def prefixes(ctx, i):
    """Sections after which the kinds before the place i of the order are closed."""
    o, f = formats.ORDER[ctx], FULL[ctx]
    if i == 0:
        return [[]]
    out = [f[:i]]
    k = o[i - 1]
    small = [w for w, x in zip(f[:i], o) if x == k or (k == "minvis" and x == "vis")]
    if small != out[0]:
        out.append(small)
    if ctx in ("trend", "change") and small[0] != f[0]:
        out[-1] = [f[0]] + small
    return out


def text(ctx, section):
    return " ".join(HEAD[ctx] + section)


def keyword(ctx, w):
    return w.startswith(KEYS[ctx])


class Log:
    """The regular expressions applied while a report is built."""

    def __init__(self):
        self.calls = []

    def __call__(self, kind, pat, s):
        f = sys._getframe(2)
        while f is not None and "/aeromet_py/" not in f.f_code.co_filename:
            f = f.f_back
        state = None
        if f is not None:
            state = (f.f_code.co_qualname, tuple(sorted((k, v) for k, v in f.f_locals.items()
                                                        if type(v) in (int, bool))))
        self.calls.append((kind, pat, s, state))

    def of(self, w):
        """The (kind, pattern) applied to that word, in order, and the state of the function at the first."""
        mine = [(k, p, x) for k, p, s, x in self.calls if s == w]
        # the function that reads the groups, not what is applied to a text that is one word
        where = collections.Counter(x and x[0] for _, _, x in mine).most_common(1)
        mine = [m for m in mine if (m[2] and m[2][0]) == where[0][0]]
        return [(k, p) for k, p, _ in mine], mine[0][2] if mine else None


def watch(cls, t):
    log = Log()
    CTX.hooks["re"] = log
    try:
        cls(t, year=2022, month=3)
    except core.Control:
        raise
    except Exception:
        pass
    finally:
        CTX.hooks.pop("re", None)
    return log


def patterns(cls, ctx):
    """The ordered (kind, pattern) applied to a group of that section."""
    c, _ = watch(cls, text(ctx, [PROBE[ctx]])).of(PROBE[ctx])
    if not c:
        raise NotSupported("no regular expression is applied to the groups")
    return c


def case_split(cls, ctx, rng, words=3):
    """Words of every class that the code or the formats tell apart: [(signature, words)], number of states."""
    try:
        code = [dfa.Lang(k, p) for k, p in dict.fromkeys(patterns(cls, ctx))]
    except NotSupported:
        code = []
    spec = []
    for k in KINDS[ctx]:
        for p in dict.fromkeys((formats.must(ctx, k), formats.may(ctx, k))):
            if p:
                spec.append(dfa.Lang("fullmatch", p))
    keys = [dfa.Lang("match", k) for k in KEYS[ctx]]
    out, n = dfa.classes(code + spec + keys, words=words, rng=rng)
    return [ws for sig, ws in sorted(out.items())], n


EXTRA = {"metar": ["1 1/2SM", "11 1/4SM", "1 1/2KM", "WS R07", "WS RWY07L", "WS R7", "WS", "WS ALL RWY", "WS ALL", "ALL RWY",
                   "WS X07", "1 1/0SM", "R07", "RWY25"],
         "trend": ["1 1/2SM", "1 1/2KM", "111 1/2SM"], "taf": ["1 1/2SM", "1 1/2KM", "01 3/4SM"],
         "change": ["1 1/2SM", "1 1/2KM"]}


def pool(cls, ctx, rng, words=1):
    """One or more words of every class, that may stand within a section."""
    try:
        cs, _ = case_split(cls, ctx, rng, max(words, 4))
    except NotSupported:
        cs = []
    out = []
    for ws in cs:
        ws = [w for w in ws if not keyword(ctx, w)]
        out += ws[:words]
    out += FULL[ctx][1 if ctx in ("trend", "change") else 0:] + EXTRA[ctx]
    return list(dict.fromkeys(out))


def mutants(rng, n):
    """Groups with something missing, added or changed."""
    ws = [w for f in FULL.values() for w in f] + ["CAVOK", "VRB05KT", "/////KT", "10MPS", "18010MPS", "QNH1012", "29.92", "A2992",
                                                 "1012INS", "1/2SM", "10SM", "5KM", "NSW", "VV001", "///015TCU", "M01/M02",
                                                 "W12/H012", "R88/CLRD//", "R07/SNOCLO", "RERA", "REFZRA", "PROB40", "BECMG",
                                                 "FM071400", "NOSIG", "TL0715", "AT0030", "TXM12/0700Z", "360V010", "9999NE"]
    cs = "0123456789ABCDEFGHIKLMNOPQRSTUVWXYZ/+-."
    out = []
    while len(out) < n:
        w = rng.choice(ws)
        k = rng.randrange(6)
        i = rng.randrange(len(w) + 1)
        if k == 0:
            w = w[:i] + w[i + 1:]
        elif k == 1:
            w = w[:i] + rng.choice(cs) + w[i:]
        elif k == 2 and i < len(w):
            w = w[:i] + rng.choice(cs) + w[i + 1:]
        elif k == 3:
            w = w + rng.choice(cs + w)
        elif k == 4:
            w = rng.choice(cs) + w
        elif i + 1 < len(w):
            w = w[:i] + w[i + 1] + w[i] + w[i + 2:]
        if w and w.strip() == w and "_" not in w:
            out.append(w)
    return out


# ------------------------------------------------------------------ comparison

def differs(t, what, got, exp=None):
    """Where the summary of a report is not an outcome that the properties allow (None if it is one)."""
    exp = exp or formats.outcomes(t, what)
    if "raised" in got:
        if exp["too many"] and got["raised"] == "RangeError" or temps(t, what, exp) and got["raised"] == "RangeError":
            return None
        return "construction", "a report", got["raised"] + ": " + got["text"]
    if exp["too many"] or temps(t, what, exp):
        return None
    best = None
    for o in exp["outcomes"]:
        for k in ("unparsed", "section_unparsed", "body", "sections"):
            if got[k] != o[k]:
                if best is None or k == "unparsed":
                    best = best or (k, o[k], got[k])
                break
        else:
            best = None
            break
    if best:
        k, e, a = best
        if isinstance(e, dict):
            d = next(x for x in e if e[x] != a.get(x))
            return f"{k}.{d}", e[d], a.get(d)
        return best
    return None


def temps(t, what, exp):
    """More maximum (or minimum) temperatures than the report may have."""
    if what != "taf":
        return False
    return any(len(o["body"][k]) > 2 for o in exp["outcomes"] for k in ("max_temperatures", "min_temperatures"))


def differs_sections(t, what, got, exp=None):
    """C20: the texts of the sections."""
    exp = exp or formats.outcomes(t, what)
    if "raised" in got:
        if got["raised"] == "RangeError" and (exp["too many"] or temps(t, what, exp)):
            return None
        return "construction", "a report", got["raised"] + ": " + got["text"]
    w = exp["words"]
    want = {"raw_code": formats.raw(t)}
    have = {"raw_code": got["raw"]}
    if have["raw_code"] != want["raw_code"] and have["raw_code"] != formats.normal(t):
        return "raw_code", want["raw_code"], have["raw_code"]
    names = ["body", "trend", "remark"] if what == "metar" else ["body", "weather_changes"]
    parts = [w["body"], " ".join(w["sections"]).split(), w["remark"]][:len(names)]
    for n, e, a, s in zip(names, parts, got["texts"], got["parts"]):
        if a.split() != e:
            return n, " ".join(e), a
        if s.split() != e:
            return f"sections ({n})", " ".join(e), s
    if len(got["parts"]) != len(names):
        return "sections", len(names), len(got["parts"])
    return None
