"""The format of each kind of group, and how a text is read: sections, groups, order.

Specification, independent of the code.  MUST are the documented formats (a group
in them has to be decoded as its kind); MAY adds the texts about which the
properties say nothing (decoding them or not is left open)."""
import itertools
import re

from .report import CHANGE_ORDER, METAR_ORDER, TAF_ORDER, TREND_ORDER

ORDER = {"metar": METAR_ORDER, "trend": TREND_ORDER, "taf": TAF_ORDER, "change": CHANGE_ORDER}

DAY, HOUR, HOUR23, MIN = "(0[1-9]|[12][0-9]|3[01])", "([01][0-9]|2[0-4])", "([01][0-9]|2[0-3])", "[0-5][0-9]"
CARD = "([NS][EW]?|[EW])?"
DIR = "([0-2][0-9]|3[0-6])0"
DIR1 = "(0[1-9]|[12][0-9]|3[0-6])0"
WORD2 = "[0-9]{2}"
INT = "([-+]VC|[-+]|VC)?"
DESC = "(MI|PR|BC|DR|BL|SH|TS|FZ)"
PHEN = "(DZ|RA|SN|SG|IC|PL|GR|GS|UP|BR|FG|FU|VA|DU|SA|HZ|PY|PO|SQ|FC|SS|DS|NSW)"
TEMP = "([0-9]{2}|//|XX|MM)"
COVER = "(CLR|SKC|NSC|NCD|FEW|SCT|BKN|OVC|0VC|///|VV)"
NAME = "[0-9]{2}[RLC]?"
SPEED = "P?[0-9]{2,3}(GP?[0-9]{2,3})?"
VALID = f"{DAY}{HOUR23}/{DAY}{HOUR}"


def vis(slash):
    v = "([0-9]{4}|////)" if slash else "[0-9]{4}"
    return f"{v}{CARD}|CAVOK|[MP]?[0-9]{{1,2}}(SM|KM)|[MP]?[0-9]/[1-9](SM|KM)"


VIS_MORE = f"([0-9]{{4}}|////){CARD}|CAVOK|[MP]?[0-9]{{0,2}}([0-9]/[1-9])?(SM|KM|M|U)"
WEATHER = f"{INT}{DESC}?{PHEN}|{INT}{DESC}"
CLOUD = f"{COVER}([0-9]{{3}}|///)?(CB|TCU|///)?"
RWYSTATE = "([0-9/]{2}([0-9]{2}|//)([0-9]{2}|//)|SNOCLO|CLRD//)"

MUST = {
    "type": "METAR|SPECI|TAF",
    "station": "[A-Z][A-Z0-9]{3}",
    "time": f"{DAY}{HOUR}{MIN}Z",
    "wind": f"({DIR}|///|VRB)({SPEED}|P?(//|///)|(//|///)G[0-9]{{2}})(KT|MPS)",
    "wind_variation": f"{DIR1}V{DIR1}",
    "vis": vis(True),
    "minvis": f"([0-9]{{4}}|////){CARD}",
    "rvr": f"R{NAME}/[MP]?[0-9]{{2,4}}(V[MP]?[0-9]{{2,4}})?(FT)?[NDU]?",
    "weather": WEATHER,
    "cloud": CLOUD,
    "temps": f"[M-]?{TEMP}/[M-]?{TEMP}",
    "pressure": "(A|Q|QNH)?([0-9]{4}|////)(INS)?",
    "recent": f"RE{DESC}?(DZ|RA|SN|SG|IC|PL|GR|GS|UP)?(BR|FG|VA|DU|SA|HZ|PY)?(PO|SQ|FC|SS|DS)?",
    "windshear": None,
    "sea": "WM?[0-9]{2}/(S[0-9]|H[0-9]{3})",
    "rwystate": f"R{NAME}/{RWYSTATE}|R/SNOCLO",
    "modifier": "CORR?|AMD|NIL|TEST|FINO|AUTO",
    "missing": "NIL",
    "valid": VALID,
    "cancelled": "CNL",
    "ttemp": f"T[XN]M?[0-9]{{2}}/{DAY}{HOUR23}Z",
    "tind": "TEMPO|BECMG|NOSIG",
    "tper": f"(FM|TL|AT){HOUR}{MIN}",
    "cind": f"TEMPO|BECMG|FM{DAY}{HOUR23}{MIN}|PROB[34]0",
    "cper": VALID,
}
MAY = {
    "wind": f"({DIR}|///|VRB)P?([0-9]{{2,3}}|//|///)(GP?[0-9]{{2,3}})?(KT|MPS)",
    "vis": VIS_MORE,
    "weather": f"{INT}{DESC}?({PHEN}|/)|{INT}{DESC}|([-+]VC|[-+]|VC)",
    "rwystate": f"R({NAME})?/{RWYSTATE}",
}
TAF_MUST = {"modifier": "COR|AMD", "wind": f"({DIR}|VRB){SPEED}(KT|MPS)", "vis": vis(False)}
TAF_MAY = {"vis": f"[0-9]{{4}}{CARD}|CAVOK|[MP]?[0-9]{{0,2}}([0-9]/[1-9])?(SM|KM|M|U)"}
CHANGE_MUST = {"wind": TAF_MUST["wind"], "vis": vis(False)}
CHANGE_MAY = {"vis": VIS_MORE}


def must(ctx, kind):
    if ctx == "taf" and kind in TAF_MUST:
        return TAF_MUST[kind]
    if ctx == "change" and kind in CHANGE_MUST:
        return CHANGE_MUST[kind]
    return MUST[kind]


def may(ctx, kind):
    if ctx == "taf":
        return TAF_MAY.get(kind) or (must(ctx, kind) if kind in TAF_MUST else MAY.get(kind) or must(ctx, kind))
    if ctx == "change":
        return CHANGE_MAY.get(kind) or (must(ctx, kind) if kind in CHANGE_MUST else MAY.get(kind) or must(ctx, kind))
    return MAY.get(kind) or must(ctx, kind)


# groups written in several words
JOINED = {
    "windshear": f"WS (R|RWY){NAME}|WS ALL RWY",
    "vis": "[0-9]{1,2} [0-9]/[1-9]SM",
    "cind": "PROB[34]0 TEMPO",
}
JOINS = {"metar": ["vis", "windshear"], "trend": ["vis"], "taf": ["vis"], "change": ["cind", "vis"]}

_C = {}


def compiled(ctx, kind):
    k = (ctx, kind)
    if k not in _C:
        a, b = must(ctx, kind), may(ctx, kind)
        j = JOINED[kind] if kind in JOINS[ctx] else None
        f = lambda p: re.compile("|".join(x for x in (p, j) if x) or "(?!)", re.ASCII)
        _C[k] = f(a), f(b)
    return _C[k]


def groups(words, ctx, first=True):
    """The groups of a section: the words, some of them joined."""
    out, i = [], 0
    while i < len(words):
        for kind in JOINS[ctx]:
            n = 0
            for k in (3, 2):
                t = " ".join(words[i:i + k])
                # the whole and the fraction are only read together after another word
                if len(words) >= i + k and re.fullmatch(JOINED[kind], t) and (kind != "vis" or i or not first):
                    n = k
                    break
            if n:
                out.append(" ".join(words[i:i + n]))
                i += n
                break
        else:
            out.append(words[i])
            i += 1
    return out


def readings(gs, ctx, limit=64):
    """The possible outcomes of a section: [(kind, text)], unparsed.

    Each group goes to the first open kind whose format it has; where the format is
    left open, both ways."""
    order = ORDER[ctx]
    out = []

    def go(n, i, dec, left):
        if len(out) >= limit:
            return
        while n < len(gs):
            g = gs[n]
            n += 1
            done = False
            for j in range(i, len(order)):
                a, b = compiled(ctx, order[j])
                if a.fullmatch(g):
                    dec, i, done = dec + [(order[j], g)], j + 1, True
                    break
                if b.fullmatch(g):
                    go(n, j + 1, dec + [(order[j], g)], left)
            if not done:
                left = left + [g]
        out.append((dec, left))
    go(0, 0, [], [])
    return out


# ------------------------------------------------------------------ sections

METAR_KEYS = ("NOSIG", "TEMPO", "BECMG", "RMK")
TAF_KEYS = ("FM", "TEMPO", "BECMG", "PROB")


def raw(text):
    """The text without blanks at the ends, each run of blanks a space, without '='."""
    return re.sub(r"[ \n\t]+", " ", text.strip(" \n\t")).replace("=", "")


def normal(text):
    return " ".join(text.replace("=", "").split())


def sections(words, what):
    """(body, sections, remark): lists of words."""
    if what == "metar":
        body, secs, rmk = [], [], []
        cur = body
        for w in words:
            if w.startswith("RMK"):
                cur = rmk
            elif w.startswith(METAR_KEYS):
                secs.append([])
                cur = secs[-1]
            cur.append(w)
        return body, secs, rmk
    head = 0
    if words[:1] == ["TAF"]:
        head = 1
    if words[head:head + 1] in (["COR"], ["AMD"]):
        head += 1
    body, secs = [], []
    cur = body
    for n, w in enumerate(words):
        if n > head and w.startswith(TAF_KEYS):
            # TEMPO after PROB30 or PROB40 belongs to it
            if not (w == "TEMPO" and re.fullmatch("PROB[34]0", words[n - 1])):
                secs.append([])
                cur = secs[-1]
        cur.append(w)
    return body, secs, []


LIMIT = {"metar": 2, "taf": 8}
SINGLE = {"type": "type_", "station": "station", "time": "time", "modifier": "modifier", "wind": "wind",
          "wind_variation": "wind_variation", "vis": "prevailing_visibility", "minvis": "minimum_visibility",
          "temps": "temperatures", "pressure": "pressure", "recent": "recent_weather", "sea": "sea_state",
          "rwystate": "runway_state", "missing": "missing", "valid": "valid", "cancelled": "cancelled"}
LISTS = {"rvr": "runway_ranges", "weather": "weathers", "cloud": "clouds", "windshear": "windshears"}


def shown(ctx, dec, default=None):
    """The codes that the report shows for what was decoded in a section."""
    out = {}
    for k in dict.fromkeys(ORDER[ctx]):
        if k in LISTS:
            out[LISTS[k]] = []
        elif k in SINGLE:
            out[SINGLE[k]] = None
    if ctx == "taf":
        out["max_temperatures"], out["min_temperatures"] = [], []
    if ctx in ("metar", "taf"):
        out["type_"] = default
    if ctx == "trend":
        out["trend_indicator"] = None
    if ctx == "change":
        out["change_indicator"] = None
    for k, g in dec:
        if k in LISTS:
            out[LISTS[k]].append(g)
        elif k in SINGLE:
            out[SINGLE[k]] = g
        elif k == "ttemp":
            out["max_temperatures" if g[1] == "X" else "min_temperatures"].append(g)
        elif k == "tind":
            out["trend_indicator"] = g
        elif k == "tper" and out["trend_indicator"] is not None:
            out["trend_indicator"] += " " + g
        elif k == "cind":
            out["change_indicator"] = g
        elif k == "cper" and out["change_indicator"] is not None and not out["change_indicator"].startswith("FM"):
            out["change_indicator"] += " " + g
    return out


def outcomes(text, what):
    """All the outcomes of a report that the properties allow."""
    words = normal(text).split()
    body, secs, rmk = sections(words, what)
    sub = "trend" if what == "metar" else "change"
    parts = [[(shown(what, d, "METAR" if what == "metar" else "TAF"), l) for d, l in readings(groups(body, what), what)]]
    for s in secs:
        gs = groups(s, sub)
        parts.append([(shown(sub, d), l) for d, l in readings(gs, sub)])
    out = []
    for alt in itertools.islice(itertools.product(*parts), 256):
        out.append({"body": alt[0][0], "sections": [a[0] for a in alt[1:]], "section_unparsed": [a[1] for a in alt[1:]],
                    "unparsed": [w for a in alt for w in a[1]]})
    return {"words": {"body": body, "sections": [" ".join(s) for s in secs], "remark": rmk}, "too many": len(secs) > LIMIT[what],
            "outcomes": out}
