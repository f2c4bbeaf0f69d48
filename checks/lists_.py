"""C23: the group lists."""
import importlib
import itertools
import os

import z3

from contracts import contexts as cx
from contracts import dates, grammar, lists, prove, state
from contracts.prove import PLAIN, Failure
from contracts.report import Rep
from pyvc import core, real
from pyvc.core import CTX, Explorer, Unsupported

from . import common
from .common import Check, Task, report_task
from .defs import CHECKS, header_shapes, light_tasks, ttemps
from .units_ import decide, explore

MOST = 13


def eq(a, b):
    return all(bool(c) for c in prove.agree(b, a))


# ------------------------------------------------------------------ every capacity

def capacity_task():
    name = "GroupList of every capacity"

    def group(base):
        class One(base.Group):
            def as_dict(self):
                return {"code": self.code}
        return One

    def run(st):
        st.names.add(name)
        base = importlib.import_module("aeromet_py.reports.models.base")
        One = group(base)

        def body():
            n = real.number("n", True)
            i = real.number("i", True)
            real.path().add(z3.And(n.t >= 0, i.t >= n.t))
            box = {"n": n, "i": i}
            l = base.GroupList(n)
            held = []

            def ok(c, what):
                m = decide(st, c)
                return None if m is None else (what, real.value(m, n), real.value(m, i))

            def look():
                w = lists.views(l, None, held)
                st.decided("evaluation on each path", ok=w is None)
                if w is None:
                    return None
                m = real.path().model(z3.BoolVal(True))
                return w, real.value(m, n), real.value(m, i)
            bad = look()
            for k in range(MOST):
                if bad:
                    return bad
                g = One(f"G{k}")
                e = lists.outcome(lambda: l.add(g))
                if e is None:
                    held.append(g)
                    bad = ok(n.t > k, f"adds group {k + 1}")
                elif e == "RangeError":
                    bad = ok(n.t <= k, f"does not add group {k + 1}") or look()
                    # adding to a full list again and again
                    if not bad and lists.outcome(lambda: l.add(g)) != "RangeError":
                        bad = ok(z3.BoolVal(False), "adds to a full list")
                    break
                else:
                    bad = ok(z3.BoolVal(False), f"raises {e} when adding group {k + 1}")
                bad = bad or look()
            if not bad:
                e = lists.outcome(lambda: l[i])
                bad = ok(z3.BoolVal(e == "RangeError"), f"gives {e or 'a group'} for an index over the capacity") or look()
            return bad
        for bad in explore(body, st):
            if bad is None:
                continue
            f = back(st, int(bad[1]), int(bad[2]))
            if f:
                return f
            raise Unsupported(f"{bad}: the failure does not replay on the plain code")
        return None

    def back(st, n, i):
        w = PLAIN.ask({"op": "capacity", "n": n, "index": i, "most": min(n, 20) + 2})
        st.samples += 1
        if isinstance(w, str):
            return Failure(name + " : " + w.split(":")[0], f"GroupList({n}): {w}", {"capacity": n, "index": i, "found": w})
        return None

    def standin(st):
        for n in range(20):
            for i in (n, n + 1, n + 7):
                st.bounded += 1
                f = back(st, n, i)
                if f:
                    return f
        return None
    return Task(name, run, standin)


# ------------------------------------------------------------------ the lists of the reports

class Views:
    """Extra contract of a report: the views of all its lists agree and respect the capacity."""
    name = "views"
    request = {}

    def parts(self, obj, rep):
        return [lambda: self.part(obj, rep)]

    def part(self, obj, rep):
        n = 0
        for path, l, cap in lists.of_report(obj, rep.what):
            n += 5
            w = lists.views(l, cap, None, eq)
            if w:
                return CTX.store.sample(prove.random.Random(1)), n, f"{path}: {w}"
        return None, n, ""

    def concrete(self, ans, r):
        x = ans.get("extra")
        return None if x is None else (x["path"], x["expected"], x["actual"])


def fill_task(name, cases, cost=1.0):
    """cases: (rep, donor rep, name of the list): the groups of the list of the donor are added to that of the report."""
    def back(st, rep, don, where, asg):
        t = [core.assign(r.text(), asg) for r in (rep, don)]
        q = {"op": "fill", "cls": rep.what, "text": t[0], "donor": t[1], "list": where, "year": rep.year, "month": rep.month,
             "times": TIMES}
        w = PLAIN.ask(q)
        st.samples += 1
        if isinstance(w, str):
            return Failure(f"{where} : {w}", f"{t[0]!r}: {where}, adding those of {t[1]!r}: {w}", {"request": q, "found": w})
        return None

    def run(st):
        st.names.add(name)
        for rep, don, where in cases():
            ta, tb = rep.text(), don.text()

            def body():
                cls = prove.cls_of(rep)
                kw = dict(year=rep.year, month=rep.month)
                try:
                    o = cls(ta, **kw)
                    ds = [g for _ in range(TIMES) for g in getattr(cls(tb, **kw), where)]
                except Exception as e:
                    raise Unsupported(f"{type(e).__name__}: {e}")
                l = getattr(o, where)
                w, n = lists.fill(l, ds, lists.CAPS[where], lambda: state.Snap(o).key, eq)
                return w, n, CTX.store
            def paths():
                while True:
                    try:
                        return [b for b in Explorer().run(body)]
                    except core.Restart:
                        pass
            for bad in paths():
                st.decided("exploration of the paths", bad[1], ok=bad[0] is None)
                st.paths += 1
                if bad[0] is None:
                    continue
                asg = prove.complete(bad[2].sample(common.rng(name)), ta, tb)
                f = back(st, rep, don, where, asg)
                if f:
                    return f
                raise Unsupported(f"{bad[0]}: the failure does not replay on the plain code")
        return None

    def standin(st):
        r = common.rng(name)
        for rep, don, where in cases():
            for _ in range(3):
                asg = {v: v.dom[r.randrange(len(v.dom))] for v in core.all_vars([rep.text(), don.text()])}
                st.bounded += 1
                f = back(st, rep, don, where, asg)
                if f:
                    return f
        return None
    return Task(name, run, standin, cost)


TIMES = 3


def sections(what, kinds, day="07"):
    """Trends or changes of some kinds, with concrete times."""
    out = []
    for i, k in enumerate(kinds):
        wind = cx.fixed("wind", f"{10 * i + 10:03d}10KT", what)
        if what == "metar":
            out.append([dates.tind(k), wind])
        elif k == "FM":
            out.append([dates.the_fm(f"FM{day}{13 + i:02d}00"), wind])
        else:
            out.append([dates.cind(k), dates.the_valid(f"{day}{13 + i:02d}/{day}{14 + i:02d}", "cper"), wind])
    return out


def taf(kinds):
    return Rep("taf", cx.taf_header(), sections("taf", kinds))


def donor(k):
    per = lambda: dates.valid_group(("07", "08"), "cper", ("20", "12"), ("21", "13"))
    wind = cx.fixed("wind", "35035KT", "taf")
    if k == "FM":
        s = [dates.fm_group(("07", "08"), ("00", "12", "20"), ("00", "30")), wind]
    else:
        s = [dates.cind(k), per(), wind]
    return Rep("taf", cx.taf_header(), [s])


FOUR = ["FM", "BECMG", "TEMPO", "PROB30"]


def metar_fill(kind, where, texts):
    def cases():
        for k in range(len(texts)):
            gs = [cx.fixed(kind, t) for t in texts[:k]]
            yield Rep("metar", cx.metar_header() + gs), Rep("metar", cx.metar_header() + [cx.fixed(kind, texts[-1])]), where
    return cases


def temps_fill(w, where):
    def cases():
        for k in range(3):
            yield (Rep("taf", cx.taf_header() + [cx.fixed_ttemp(w, i) for i in range(k)]) if hasattr(cx, "fixed_ttemp") else
                   Rep("taf", cx.taf_header() + [ttemps(w, ("07", "08"), ("12",)) for _ in range(k)])), \
                Rep("taf", cx.taf_header() + [ttemps(w, ("08",), ("15",))]), where
    return cases


def trends_fill():
    def cases():
        for k in range(3):
            for ks in itertools.product(("TEMPO", "BECMG"), repeat=k):
                for new in ("TEMPO", "BECMG", "NOSIG"):
                    yield Rep("metar", cx.metar_header(), sections("metar", ks)), \
                        Rep("metar", cx.metar_header(), sections("metar", [new])), "weather_trends"
    return cases


def changes_fill(k, new, quick):
    def cases():
        if k <= 3:
            seqs = itertools.product(FOUR, repeat=k)
        elif k < 8 and quick:
            seqs = [("TEMPO", "FM", "BECMG", "PROB30", "FM", "TEMPO", "PROB30")[:k], ("FM",) + ("TEMPO",) * (k - 1), ("PROB30",) * k]
        elif quick:
            seqs = [("TEMPO",) * (5 - j % 3) + ("FM", "BECMG", "FM")[:j % 3] + s for j, s in
                    enumerate(itertools.product(("FM", "BECMG", "TEMPO"), repeat=3))] + [("PROB30",) * 8, ("FM",) + ("TEMPO",) * 7]
        else:
            seqs = itertools.chain([("TEMPO",) * (k - 4) + s for s in itertools.product(FOUR, repeat=4)],
                                   [("FM",) + ("PROB30",) * (k - 4) + s for s in itertools.product(FOUR, repeat=3)])
        for s in seqs:
            yield taf(s), donor(new), "changes_forecasted"
    return cases


def c23(tier):
    quick = tier == "quick"
    yield capacity_task()
    keep = lambda o: o.kind == "list"
    for t in light_tasks(tier, ["rvr", "weather", "cloud", "windshear", "wind"], keep, extra=Views()):
        yield t
    for n, f in header_shapes():
        yield report_task(n, f, keep, extra=Views())
    yield fill_task("adding runway ranges", metar_fill("rvr", "runway_ranges", ["R07L/0800U", "R25/1200FT", "R10/0500", "R11/0600"]))
    yield fill_task("adding weathers", metar_fill("weather", "weathers", ["-RA", "BR", "VCSH", "SN"]))
    yield fill_task("adding clouds", metar_fill("cloud", "clouds", ["FEW003", "SCT010TCU", "BKN020", "OVC050", "FEW090"]))
    yield fill_task("adding windshears", metar_fill("windshear", "windshears", ["WS R25C", "WS RWY03L", "WS R07", "WS R08"]))
    yield fill_task("adding maximum temperatures", temps_fill("X", "max_temperatures"))
    yield fill_task("adding minimum temperatures", temps_fill("N", "min_temperatures"))
    yield fill_task("adding trends", trends_fill())
    for k in range(9):
        for new in FOUR:
            yield fill_task(f"adding {new} to {k} changes", changes_fill(k, new, quick), cost=3)


CHECKS["C23"] = Check(c23, explanation="GroupList with a symbolic capacity and a symbolic index over it (z3), up to thirteen "
                      "groups; the views of every list of the report shapes named; and adding to each kind of list from every "
                      "number of groups up to over its capacity (for the TAF changes, by kinds of the changes in it and of the "
                      "new one, with symbolic times)",
                      assumptions=["lists of more than thirteen groups are not explored for capacities over thirteen (the "
                                   "lists of the package have at most eight)"])
