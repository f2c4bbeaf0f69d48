"""The checks: property -> units of proof."""
import itertools

from contracts import contexts as cx
from contracts import dates, extras, grammar, pairs, prove, sequences

from contracts.report import Rep

from . import common
from .common import Check, Task, report_task

CHECKS = {}


def add(pid, **kw):
    def deco(f):
        CHECKS[pid] = Check(f, **kw)
        return f
    return deco


COST = {"rvr": 5, "rwystate": 4, "vis": 3, "minvis": 3}


def ctx_names(tier):
    return cx.QUICK if tier == "quick" else list(cx.CONTEXTS)


def shape_tasks(tier, kinds, keep, texts=False, contexts=None, extra=None):
    for name, f, k, g in cx.shapes(kinds, contexts or ctx_names(tier)):
        cost = COST.get(k, 1) * (3 if "4V4" in name or "digits" in name or "2 frac" in name else 2 if "V4" in name or "4V" in name else 1)
        yield report_task(name, lambda f=f, k=k, g=g: f(k, g), keep, texts, extra, cost)


LIGHT = ["metar-full", "metar-last", "trend-second", "taf-changes", "change-second", "change-fm"]


def light_tasks(tier, kinds, keep, small=False, **kw):
    """For the properties that are about all the kinds: in the quick tier, fewer contexts and fewer of the
    big tables (the decoding properties go through all of them)."""
    if tier != "quick":
        yield from shape_tasks(tier, kinds, keep, **kw)
        return
    for t in shape_tasks(tier, kinds, keep, contexts=LIGHT, **kw):
        if t.name.startswith("rvr") and not t.name.startswith(("rvr 4VNone ", "rvr 3V2FT ", "rvr 2V3 ")):
            continue
        if t.name.startswith("rvr") and "metar-last" in t.name:
            continue
        if small and t.name.startswith(("vis digits", "vis 2 frac", "vis frac", "vis 1 frac", "minvis digits")) \
                and ("metar-full" not in t.name or small == "all"):
            continue
        if small == "all" and "change-second" in t.name:
            continue
        yield t
    if small:
        for c in LIGHT:
            ks, gctx, f = cx.CONTEXTS[c]
            slash = gctx in ("metar", "trend")
            for k in ("vis", "minvis"):
                if k in ks and (c != "metar-full" or small == "all"):
                    for g in grammar.vis_digits(k, dom=grammar.EDGES[:12 if slash else 11]):
                        yield report_task(f"{k} digits (edges) in {c}", lambda f=f, k=k, g=g: f(k, g), keep, **kw)


def of(*kinds):
    return lambda o: o.kind in kinds


def decoding(pid, kinds, keep=None, more=None, explanation=""):
    def tasks(tier):
        yield from shape_tasks(tier, kinds, keep or of(*kinds))
        if more:
            yield from more(tier)
    CHECKS[pid] = Check(tasks, explanation=explanation)


EXPL = ("every well-formed group of the kinds of the property, as a text with symbolic parts, in the contexts named in "
        "unit_names; each attribute of each path is an obligation decided over the whole table of its variables")

decoding("C05", ["wind", "wind_variation"], explanation=EXPL)
decoding("C07", ["vis", "minvis"], explanation=EXPL)
decoding("C08", ["rvr"], explanation=EXPL)
decoding("C09", ["weather", "recent"], lambda o: o.kind in ("weather", "recent") or
         o.kind == "list" and "weathers" in o.obj, explanation=EXPL)
decoding("C10", ["cloud"], lambda o: o.kind == "cloud" or o.kind == "list" and "clouds" in o.obj, explanation=EXPL)
decoding("C12", ["rwystate", "windshear"], lambda o: o.kind in ("rwystate", "windshear") or
         o.kind == "list" and "windshears" in o.obj, explanation=EXPL)



# ------------------------------------------------------------------ C11

def ttemps(which, days, hours=("12",)):
    for g in dates.ttemp_groups(days, hours):
        if g.label == "T" + which:
            return g


def taf_temps(tier):
    full = [("wind", "18015G25KT"), ("vis", "4000"), ("weather", "-RA"), ("cloud", "BKN040CB")]
    keep = of("ttemp", "list")
    for seq in ("X", "N", "XN", "NX", "XX", "NN", "XNXN", "NXXN"):
        def make(seq=seq):
            gs = [ttemps(w, ("07", "08"), ("12", "15")) for w in seq]
            return Rep("taf", cx.taf_header() + [cx.fixed(k, t, "taf") for k, t in full] + gs)
        yield report_task("TAF temperatures T" + " T".join(seq), make, keep)


decoding("C11", ["temps", "pressure", "sea"], None, taf_temps, explanation=EXPL)


# ------------------------------------------------------------------ C13, C14

def analysis(tier, keep):
    """Every visibility with every combination of up to four layers, in each place where they are analysed."""
    heads = {"metar": (cx.metar_header, None, None),
             "trend": (lambda: cx.metar_header() + [cx.fixed("vis", "9999"), cx.fixed("cloud", "OVC090")],
                       lambda: [dates.tind("BECMG")], "metar"),
             "taf": (cx.taf_header, None, None),
             "change": (lambda: cx.taf_header() + [cx.fixed("vis", "0100", "taf"), cx.fixed("cloud", "OVC001", "taf")],
                        lambda: [dates.the_fm("FM071400")], "taf")}
    for place, (head, ind, what) in heads.items():
        def make(gs, place=place, head=head, ind=ind, what=what):
            if ind is None:
                return Rep(place, head() + gs)
            return Rep(what, head(), [ind() + gs])
        slash = place in ("metar", "trend")
        edges = grammar.EDGES if slash else grammar.EDGES[:-1]
        few = edges if tier != "quick" else [e for e in edges if e in ("1600", "5000", "8000", "9999", "////")]

        def vis(v, dom, place=place):
            if v == "plain":
                return [grammar.plain_visibility(dom)]
            if v == "digits" and dom is not grammar.N4:
                return list(grammar.vis_digits("vis", dom=dom))
            return [g for g in grammar.visibilities(place) if g.label == v]

        def unit(v, dom, seq, covers=grammar.COVERS, heights=grammar.N3, nw=0, more="", vis=vis, place=place, make=make):
            def rep():
                gs = vis(v, dom) + [cx.fixed("weather", t, place) for t in ("-RA", "BR", "VCSH")[:nw]]
                return make(gs + [grammar.layer(x, covers, heights, len(seq) == 1) for x in seq])
            name = f"{v or 'no visibility'}{more}, layers {''.join(seq) or 'none'}, {nw} weathers in {place}"
            return report_task(name, rep, keep, cost=len(seq) + 1 + (v == "plain"))
        for v in [None, "plain"] + [g.label for g in grammar.visibilities(place)]:
            yield unit(v, grammar.N4, ())
            for x in "hntu":
                if v in (None, "plain", "CAVOK"):
                    yield unit(v, edges, (x,))
                elif v.startswith("2 frac") and tier == "quick":
                    continue
                else:
                    yield unit(v, edges, (x,), grammar.FEWER, grammar.HEIGHTS)
            if v == "plain":
                yield unit(v, grammar.N4, "h", heights=grammar.HEIGHTS, more=" (all)")
                for nw in (1, 3):
                    yield unit(v, edges, "h", nw=nw)
            if v in (None, "plain", "CAVOK"):
                for n in (2, 3) if tier == "quick" else (2, 3, 4):
                    if n == 3 and tier == "quick" and (place not in ("metar", "change") or v == "CAVOK"):
                        continue
                    for seq in itertools.product("hntu" if n == 2 or tier != "quick" and n < 4 else "hnt" if n < 4 and (v is None or n < 3 or tier != "quick") else "hn", repeat=n):
                        yield unit(v, few, seq, grammar.FEWER if tier == "quick" else grammar.COVERS, grammar.HEIGHTS)


CHECKS["C13"] = Check(lambda t: analysis(t, of("rules")), explanation="flight_rules over every visibility group "
                      "and every combination of up to four cloud groups, in METAR, trends, TAF and changes")
CHECKS["C14"] = Check(lambda t: analysis(t, of("ceiling")), explanation="clouds.ceiling and should_be_cavok() over every "
                      "visibility group and every combination of up to four cloud groups, in METAR, trends, TAF and changes")


# ------------------------------------------------------------------ C25

def c25(tier):
    keep = of("type", "modifier", "missing", "cancelled")
    g = grammar
    st, t = dates.station, dates.the_time("071130Z", cx.YEAR, cx.MONTH)
    mt = lambda k: cx.METAR_FULL[1:6]
    wind = cx.fixed("wind", "18015G25KT")
    valid = dates.the_valid("0712/0812")
    one = lambda f, ctx: next(iter(f(ctx)))
    ty = lambda ctx: one(g.types, ctx)
    mod = lambda ctx: one(g.modifiers, ctx)
    shapes = {
        "METAR type": lambda: Rep("metar", [ty("metar"), st(), t]),
        "METAR type alone": lambda: Rep("metar", [ty("metar")]),
        "METAR without type": lambda: Rep("metar", [st(), t, wind]),
        "METAR type and modifier": lambda: Rep("metar", [ty("metar"), st(), t, mod("metar"), wind]),
        "METAR modifier without type": lambda: Rep("metar", [st(), t, mod("metar")]),
        "METAR modifier without time": lambda: Rep("metar", [ty("metar"), st(), mod("metar"), wind]),
        "METAR full": lambda: Rep("metar", [ty("metar"), st(), t, mod("metar")] +
                                  [cx.fixed(k, x) for k, x in cx.METAR_FULL[1:]],
                                  [[dates.tind("TEMPO")] + [cx.fixed(k, x, "trend") for k, x in cx.TREND_FULL]], "RMK NIL"),
        "METAR full without modifier": lambda: Rep("metar", [ty("metar"), st(), t] +
                                                   [cx.fixed(k, x) for k, x in cx.METAR_FULL[1:]]),
        "TAF type": lambda: Rep("taf", [ty("taf"), st(), t]),
        "TAF type alone": lambda: Rep("taf", [ty("taf")]),
        "TAF without type": lambda: Rep("taf", [st(), t, valid, wind]),
        "TAF type and modifier": lambda: Rep("taf", [ty("taf"), mod("taf"), st(), t, valid, wind]),
        "TAF modifier without type": lambda: Rep("taf", [mod("taf"), st(), t, valid]),
        "TAF NIL": lambda: Rep("taf", [ty("taf"), mod("taf"), st(), t, dates.missing()]),
        "TAF NIL without modifier": lambda: Rep("taf", [ty("taf"), st(), t, dates.missing()]),
        "TAF CNL": lambda: Rep("taf", [ty("taf"), mod("taf"), st(), t, valid, dates.cancelled()]),
        "TAF CNL without modifier": lambda: Rep("taf", [ty("taf"), st(), t, valid, dates.cancelled()]),
        "TAF NIL and CNL": lambda: Rep("taf", [ty("taf"), st(), t, dates.missing(), valid, dates.cancelled()]),
        "TAF CNL after NIL": lambda: Rep("taf", [ty("taf"), st(), t, dates.missing(), dates.cancelled()]),
        "TAF full": lambda: Rep("taf", [ty("taf"), mod("taf"), st(), t, valid] +
                                [cx.fixed(k, x, "taf") for k, x in cx.TAF_FULL],
                                [[dates.cind("TEMPO"), dates.the_valid("0714/0716", "cper"), wind]]),
    }
    for name, f in shapes.items():
        yield report_task(name, f, keep, texts=True)


CHECKS["C25"] = Check(c25, explanation="type, modifier, missing and cancelled marks with every code of their tables, present "
                      "and absent, in METAR and TAF")


# ------------------------------------------------------------------ C21

def c21(tier):
    kinds = list(cx.grammar.KINDS)
    yield from light_tasks(tier, kinds, lambda o: o.attr in ("code", "codes"), extra=extras.Dicts())
    for t in header_shapes():
        yield report_task(t[0], t[1], lambda o: o.attr in ("code", "codes"), extra=extras.Dicts())


def header_shapes():
    """Reports with the marks and groups that have no shape of their own."""
    st, t = dates.station, lambda: dates.time_group(cx.YEAR, cx.MONTH, ("07", "08"))
    one = lambda f, ctx: next(iter(f(ctx)))
    ty = lambda ctx: one(grammar.types, ctx)
    mod = lambda ctx: one(grammar.modifiers, ctx)
    days = ("07", "08", "09")
    valid = lambda: dates.valid_group(days, "valid", ("12", "00"), ("12", "24"))
    yield "METAR header", lambda: Rep("metar", [ty("metar"), st(), t(), mod("metar")])
    yield "METAR without groups", lambda: Rep("metar", [ty("metar")])
    yield "TAF header", lambda: Rep("taf", [ty("taf"), mod("taf"), st(), t(), valid()])
    yield "TAF without groups", lambda: Rep("taf", [ty("taf")])
    yield "TAF NIL", lambda: Rep("taf", [ty("taf"), mod("taf"), st(), t(), dates.missing()])
    yield "TAF CNL", lambda: Rep("taf", [ty("taf"), st(), t(), valid(), dates.cancelled()])
    yield "TAF temperatures", lambda: Rep("taf", cx.taf_header() + [ttemps(w, ("07", "08"), ("12", "15"))
                                                                    for w in "XNXN"])
    for ind in ("TEMPO", "BECMG"):
        for per in (["FM"], ["TL"], ["AT"], ["FM", "TL"]):
            yield f"trend {ind} {' '.join(per)}", lambda ind=ind, per=per: Rep(
                "metar", cx.metar_header(), [[dates.tind(ind)] + [dates.tper_group(p, ("12", "13", "00"), ("00", "30"))
                                                                  for p in per] + [cx.fixed("wind", "27010KT", "trend")]])
    yield "trend NOSIG", lambda: Rep("metar", cx.metar_header(), [[dates.tind("NOSIG")]])
    per = lambda: dates.valid_group(days, "cper", ("12", "15"), ("18", "24"))
    for ind in ("TEMPO", "BECMG", "PROB30", "PROB40", "PROB30 TEMPO", "PROB40 TEMPO"):
        yield f"change {ind}", lambda ind=ind: Rep("taf", cx.taf_header(), [[dates.cind(ind), per(),
                                                                            cx.fixed("wind", "27010KT", "taf")]])
    yield "change FM", lambda: Rep("taf", cx.taf_header(), [
        [dates.fm_group(("07", "08"), ("14", "15"), ("00", "30")), cx.fixed("wind", "27010KT", "taf")],
        [dates.fm_group(("08",), ("01", "02"), ("00", "30")), cx.fixed("vis", "CAVOK", "taf")],
        [dates.cind("BECMG"), per(), cx.fixed("wind", "27010KT", "taf")]])
    eight = ["FM071330", "TEMPO", "PROB30", "FM071600", "BECMG", "PROB40 TEMPO", "TEMPO"]
    yield "eight changes", lambda: Rep("taf", cx.taf_header(), [
        [dates.the_fm(c)] if c.startswith("FM") else
        [dates.cind(c), dates.the_valid("07%02d/07%02d" % (13 + i, 15 + i), "cper"), cx.fixed("vis", "2000", "taf")]
        for i, c in enumerate(eight)] + [[dates.cind("TEMPO"), per(), cx.fixed("wind", "27010KT", "taf")]])
    yield "two trends", lambda: Rep("metar", cx.metar_header(), [
        [dates.tind("TEMPO"), dates.tper_group("FM", ("12", "13"), ("00", "30")), cx.fixed("wind", "27010KT", "trend")],
        [dates.tind("BECMG"), dates.tper_group("TL", ("12", "13"), ("00", "30")), cx.fixed("vis", "CAVOK", "trend")]])


CHECKS["C21"] = Check(c21, explanation="as_dict() of each group, of each list, of each trend and change and of the report "
                      "against the attributes read from the same object, to_json() against as_dict(), and the codes against "
                      "the text of the groups")


# ------------------------------------------------------------------ C27

def c27(tier):
    keep = lambda o: o.attr == "__str__"
    yield from light_tasks(tier, list(cx.grammar.KINDS), keep, texts=True)
    for t in header_shapes():
        yield report_task(t[0], t[1], keep, texts=True)


CHECKS["C27"] = Check(c27, explanation="the text of each group and of the whole report, for every shape of every kind of group")


# ------------------------------------------------------------------ C15

def c15(tier):
    none = lambda o: False
    yield from light_tasks(tier, list(cx.grammar.KINDS), none, small="all", extra=extras.Readers("pure"))
    for t in header_shapes():
        yield report_task(t[0], t[1], none, extra=extras.Readers("pure"))


CHECKS["C15"] = Check(c15, explanation="frame condition of every reading (each public property, as_dict, to_json, str, len, "
                      "whole, abandoned and nested iteration, of the report and of everything in it): the object graph of the "
                      "report is the same before and after, for every shape of every kind of group; any sequence of readings "
                      "follows by induction")


# ------------------------------------------------------------------ C26

def other_task(name, f):
    """f() gives the report and the group under test."""
    box = {}

    def make():
        rep, g = f()
        box["x"].prepare(rep, g)
        # attributes of the groups that are absent are empty
        have = {None: {k for k, _ in decoded(rep, None)}}
        for i in range(len(rep.sections)):
            have[i] = {k for k, _ in decoded(rep, i)}
        box["have"] = have
        return rep

    def decoded(rep, i):
        from contracts import report as r
        o = {"metar": (r.METAR_ORDER, r.TREND_ORDER), "taf": (r.TAF_ORDER, r.CHANGE_ORDER)}[rep.what]
        return r.decode(rep.body, o[0])[0] if i is None else r.decode(rep.sections[i], o[1])[0]

    def keep(o):
        if o.where == "body":
            i = None
        elif o.where in ("trend", "change"):
            i = int(o.obj.split("[")[1].split("]")[0])
        else:
            return False
        return o.kind in EMPTY and o.kind not in box["have"][i]

    def run(st):
        box["x"] = extras.Other(make)
        return prove.check_report(make(), name, keep, st, False, box["x"])

    def standin(st):
        box["x"] = extras.Other(make)
        rep = make()
        return prove.battery(rep, name, keep, st, False, box["x"], rep.text(), common.rng(name), 40)
    return Task(name, run, standin)


EMPTY = {"modifier", "wind", "wind_variation", "vis", "minvis", "temps", "pressure", "recent", "sea", "rwystate",
         "missing", "cancelled"}


def c26(tier):
    ctxs = ["metar", "metar-full", "metar-last", "trend-second", "trend-one", "taf-full", "taf-changes", "change-second",
            "change-fm"]
    for c in ctxs if tier == "quick" else cx.CONTEXTS:
        ks, gctx, f = cx.CONTEXTS[c]
        for k in ks:
            for g in grammar.KINDS[k](gctx):
                if g.extra.get("contexts") and c not in g.extra["contexts"]:
                    continue
                if tier == "quick":
                    if k == "rvr" and (not g.label.startswith(("4VNone", "3V2FT")) or c == "metar-last"):
                        continue
                    if k in ("vis", "minvis") and g.label == "digits":
                        g = next(iter(grammar.vis_digits(k, dom=grammar.EDGES[:12 if gctx in ("metar", "trend") else 11])))
                    if "frac" in g.label and g.label != "1 fracSM":
                        continue
                yield other_task(f"{k} {g.label} in {c}", lambda f=f, k=k, g=g: (f(k, g), g))
    def mod(what):
        g = next(iter(grammar.modifiers(what)))
        if what == "metar":
            return Rep("metar", cx.metar_header() + [g] + [cx.fixed(k, t) for k, t in cx.METAR_FULL[1:]]), g
        return Rep("taf", [dates.rtype("TAF"), g] + cx.taf_header()[1:] + [cx.fixed(k, t, "taf") for k, t in cx.TAF_FULL]), g
    for what in ("metar", "taf"):
        yield other_task(f"modifier of {what}", lambda what=what: mod(what))

    def mark(g):
        h = cx.taf_header()
        return Rep("taf", h[:3] + ([g] + h[3:] if g.kind == "missing" else h[3:] + [g]) +
                   [cx.fixed(k, t, "taf") for k, t in cx.TAF_FULL]), g
    yield other_task("NIL of taf", lambda: mark(dates.missing()))
    yield other_task("CNL of taf", lambda: mark(dates.cancelled()))

    def temp(w):
        g = ttemps(w, ("07", "08"), ("12", "15"))
        o = ttemps("N" if w == "X" else "X", ("07",), ("18",))
        return Rep("taf", cx.taf_header() + [cx.fixed(k, t, "taf") for k, t in cx.TAF_FULL] + [g, cx.instance(
            o, {v: v.dom[0] for v in cx.core.all_vars(o.text)})]), g
    for w in "XN":
        yield other_task(f"T{w} of taf", lambda w=w: temp(w))
    from .calendar_ import edge_shapes
    for name, f in edge_shapes(True):
        yield report_task(name, f, lambda o: o.where in ("body", "report"))
    if tier != "quick":
        yield from pair_tasks("quick")
    for i in range(16):
        yield mixture_task(f"mixtures of groups {i}", 60 if tier == "quick" else 600)
    for i in range(4):
        yield history_task(f"histories of reports {i}", i)


def pair_tasks(tier, kinds=None):
    """Two groups under proof at once."""
    for name, ks, f in pairs.pairs(tier, kinds):
        seen = ks if kinds is None else [k for k in ks if k in kinds]
        yield report_task(name, f, lambda o, seen=seen: o.kind in seen, cost=2.0)


def mixture_task(name, n):
    """Bounded: reports with every group at random, near the limits, on the plain code."""
    def run(st):
        r = common.rng(name)
        for _ in range(n):
            rep = pairs.mixture(r)
            asg = {v: r.choice(v.dom) for v in cx.core.all_vars(rep.text())}
            st.bounded += 1
            fl = prove.confirm(rep, name, lambda o: o.where in ("body", "trend", "change"), False, None, asg, None, st)
            if fl:
                return fl
    return Task(name, run, cost=0.1)


def history_task(name, i):
    """Bounded: reports in sequence against each one alone."""
    def run(st):
        r = common.rng(name)
        pool = []
        for n, f, k, g in cx.shapes(list(grammar.KINDS), ctx_names("thorough")):
            if r.random() < 0.02:
                rep = f(k, g)
                asg = {v: v.dom[r.randrange(len(v.dom))] for v in cx.core.all_vars(rep.text())}
                pool.append([rep.what, cx.core.assign(rep.text(), asg), 2022, 3])
        r.shuffle(pool)
        pool = pool[:12] + sequences.SOME
        seq = pool + [pool[r.randrange(len(pool))] for _ in range(72)]
        h = prove.PLAIN.ask({"op": "history", "reports": seq})
        st.bounded += len(seq)
        if "ok" in h or h.get("dead"):
            return None
        return prove.Failure(f"{name} : {h['path']}", f"{h['report'][1]!r} after {h['place']} reports: {h['path']} is "
                             f"{h['after the others']!r}, alone it is {h['alone']!r}", {"history": seq, "found": h})
    return Task(name, run)


CHECKS["C26"] = Check(c26, explanation="every attribute outside of the group under test (and of what is defined from it) "
                      "against the same report without the group; absent groups are empty; building a report leaves the state "
                      "of the package and of the other reports as they were, and shares nothing with them (plus a bounded run "
                      "of sequences of reports against each one alone)")
