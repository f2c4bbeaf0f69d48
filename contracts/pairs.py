"""Reports with two groups under proof at once.

The shapes of contexts.py have one symbolic group among fixed ones; here two
groups are symbolic, for every pair of kinds and every pair of places, so that
what a group shows cannot depend on the value of another group.  The domains of
the long numbers are the values next to the limits of the code (stated below)."""
import contextlib
import functools
import itertools

from . import contexts as cx
from . import dates, grammar
from .grammar import KINDS
from .report import METAR_ORDER, Rep, TAF_ORDER

SMALL = {
    "N2": ["00", "01", "02", "05", "09", "10", "15", "18", "20", "27", "35", "36", "49", "50", "51", "88", "89", "90",
           "91", "92", "93", "95", "96", "97", "98", "99"],
    "N3": ["000", "001", "002", "009", "010", "015", "020", "030", "049", "050", "099", "100", "150", "300", "999"],
    "N4": ["0000", "0050", "0100", "0350", "0800", "1000", "1500", "1600", "5000", "8000", "9000", "9998", "9999"],
    "DIRS": ["000", "010", "090", "180", "270", "350", "360"],
    "VDIRS": ["010", "090", "180", "270", "350", "360"],
    "CARD": ["N", "NE"],
    "COVERS": ["NSC", "FEW", "SCT", "OVC", "///", "VV"],
    "INT": ["", "-", "+", "VC"],
    "DESC": ["", "BL", "SH", "TS", "FZ"],
    "PREC": ["DZ", "RA", "SN", "GR", "UP"],
    "OBSC": ["BR", "FG", "FU", "HZ"],
    "RWYS": ["00", "01", "07", "18", "25", "36", "37", "50", "86", "87", "88", "99"],
}


@contextlib.contextmanager
def small(quick):
    change = dict(SMALL, lit=lambda *opts: opts[0]) if quick else SMALL
    old = {k: getattr(grammar, k) for k in change}
    try:
        for k, v in change.items():
            setattr(grammar, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(grammar, k, v)


# the shapes of each kind in the quick tier
FEW = {"wind": ["KT2G0", "KT2G2"], "vis": ["digits", "CAVOK"], "rvr": ["4VNone"], "pressure": ["Qnnnn"],
       "weather": ["prec", "other"], "sea": ["state"], "rwystate": ["state"], "windshear": ["runway", "all"]}


def reduced(kind, ctx, tier):
    """The shapes of the kind over the small domains."""
    with small(tier == "quick"):
        gs = list(KINDS[kind](ctx))
    few = FEW.get(kind)
    if tier == "quick" and few:
        gs = [g for g in gs if g.label in few]
    return gs


def order(what):
    return METAR_ORDER if what == "metar" else TAF_ORDER


def _body(head, k1, g1, k2, g2, what):
    gs = [g1, g2]
    need = []
    if "minvis" in (k1, k2) and "vis" not in (k1, k2):
        need = [cx.fixed("vis", "8000", what)]
    if "pressure" in (k1, k2) and "temps" not in (k1, k2) and any(g.label == "nnnn" for g in gs):
        need += [cx.fixed("temps", "12/08", what)]
    o = order(what)
    return head + sorted(gs + need, key=lambda g: o.index(g.kind))


def _section(what, ind):
    if what == "metar":
        return [dates.tind(ind)]
    return [dates.the_fm(ind)] if ind.startswith("FM") else [dates.cind(ind), dates.the_valid("0714/0716", "cper")]


FOUR = cx.FOUR
# about how many paths a shape has; in the quick tier the product is limited, the other pairs are left to the
# bounded mixtures
PATHS = {"wind": 5, "wind_variation": 2, "vis": 9, "minvis": 9, "rvr": 40, "weather": 14, "cloud": 18, "temps": 25,
         "pressure": 2, "recent": 16, "windshear": 4, "sea": 2, "rwystate": 24}
LIMIT = 40


def paths(k, g):
    return 1 if isinstance(g.text, str) else PATHS[k]


@functools.lru_cache(None)
def labels(kind, ctx, tier):
    return [(g.label, paths(kind, g)) for g in reduced(kind, ctx, tier)]


def pairs(tier, kinds=None):
    """(name, kinds, function giving the report) for every pair; with kinds, the pairs with one of them."""
    hit = lambda *ks: kinds is None or any(k in kinds for k in ks)

    def emit(place, k1, k2, c1, c2, f):
        if not hit(k1, k2):
            return
        for (i, g1), (j, g2) in itertools.product(enumerate(labels(k1, c1, tier)), enumerate(labels(k2, c2, tier))):
            if tier == "quick" and g1[1] * g2[1] > LIMIT:
                continue
            yield f"{k1} {g1[0]} with {k2} {g2[0]} in {place}", (k1, k2), lambda i=i, j=j: f(
                reduced(k1, c1, tier)[i], reduced(k2, c2, tier)[j])
    # two groups of the body
    ms = list(KINDS)
    for i, k1 in enumerate(ms):
        for k2 in ms[i:]:
            if k1 == k2 and k1 not in cx.LISTKINDS:
                continue
            yield from emit("the body of a METAR", k1, k2, "metar", "metar", lambda a, b, k1=k1, k2=k2: Rep(
                "metar", _body(cx.metar_header(), k1, a, k2, b, "metar")))
    for i, k1 in enumerate(FOUR):
        for k2 in FOUR[i:]:
            if k1 == k2 and k1 not in cx.LISTKINDS:
                continue
            yield from emit("the body of a TAF", k1, k2, "taf", "taf", lambda a, b, k1=k1, k2=k2: Rep(
                "taf", _body(cx.taf_header(), k1, a, k2, b, "taf")))
            yield from emit("a trend", k1, k2, "trend", "trend", lambda a, b: Rep(
                "metar", cx._metar_base(), [_section("metar", "TEMPO") + [a, b]]))
            for ind in ("BECMG", "FM071500") if tier != "quick" else ("BECMG",):
                yield from emit("a change", k1, k2, "change", "change", lambda a, b, ind=ind: Rep(
                    "taf", cx._taf_base(), [_section("taf", ind) + [a, b]]))
    # one in the body, one in a section
    for k2 in FOUR:
        for k1 in ms:
            yield from emit("the body and a trend", k1, k2, "metar", "trend", lambda a, b, k1=k1: Rep(
                "metar", cx.metar_header() + cx._needs(k1, a) + [a], [_section("metar", "TEMPO") + [b]]))
        for k1 in FOUR:
            for ind in ("TEMPO", "FM071500") if tier != "quick" else ("FM071500",):
                yield from emit("the body and a change", k1, k2, "taf", "change", lambda a, b, ind=ind: Rep(
                    "taf", cx.taf_header() + [a], [_section("taf", ind) + [b]]))
            # in two sections
            yield from emit("two trends", k1, k2, "trend", "trend", lambda a, b: Rep(
                "metar", cx._metar_base(), [_section("metar", "BECMG") + [a], _section("metar", "TEMPO") + [b]]))
            yield from emit("two changes", k1, k2, "change", "change", lambda a, b: Rep(
                "taf", cx._taf_base(), [_section("taf", "FM071300") + [a], _section("taf", "TEMPO") + [b]]))


# ------------------------------------------------------------------ bounded mixtures

def mixture(rng):
    """A report with groups of all the kinds at random places, all of them symbolic over the small domains."""
    what = "metar" if rng.random() < 0.5 else "taf"
    with small(False):
        def some(kinds, ctx, p):
            gs = []
            for k in kinds:
                n = 1 if k not in cx.LISTKINDS else rng.choice([1, 1, 2, cx.LISTKINDS[k]])
                if rng.random() < p:
                    for _ in range(n):
                        gs.append(rng.choice(list(KINDS[k](ctx))))
            if any(g.label == "nnnn" and g.kind == "pressure" for g in gs) and not any(g.kind == "temps" for g in gs):
                gs = [g for g in gs if g.kind != "pressure"]
            if any(g.kind == "minvis" for g in gs) and not any(g.kind == "vis" for g in gs):
                gs = [g for g in gs if g.kind != "minvis"]
            return gs or some(kinds, ctx, p)
        if what == "metar":
            body = cx.metar_header() + some(list(KINDS), "metar", rng.choice([0.3, 0.7, 1]))
            secs = [_section("metar", i) + some(FOUR, "trend", 0.6) for i in ("TEMPO", "BECMG")[:rng.choice([0, 1, 1, 2])]]
        else:
            body = cx.taf_header() + some(FOUR, "taf", rng.choice([0.5, 1]))
            secs = [_section("taf", i) + some(FOUR, "change", 0.6)
                    for i in ("FM071300", "TEMPO", "BECMG")[:rng.choice([0, 1, 2, 3])]]
    return Rep(what, body, secs)
