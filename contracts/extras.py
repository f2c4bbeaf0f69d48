"""Contracts that are not about one attribute: dictionaries, purity."""
from pyvc import builtins_ as B
from pyvc import core
from pyvc.core import CTX, lift
from pyvc.strings import mk

from . import dicts, model, prove, report, state
from .prove import Raised, agree, read, refute


class SymOps:
    """Reading of symbolic reports."""

    @staticmethod
    def read(obj, path):
        return read(obj, path)

    @staticmethod
    def text(x):
        return B.s_str(x)

    @staticmethod
    def json(o, path):
        t = o.to_json()
        d = o.as_dict()
        if isinstance(t, B.SymJson):
            yield from dicts.whole_pairs(d, t.obj, path)
            if t.kw:
                raise core.Unsupported("options of json.dumps")
        elif core.is_sym(t):
            raise core.Unsupported("text of to_json")
        else:
            yield from dicts.json_text(o, path)


def conditions(exp, act):
    if isinstance(exp, dicts.Limit):
        w = lift(lambda l, v: "" if v is None or not l else l + " ", act, exp.value)
        return agree(exp.text, mk((w, lift(lambda v: "" if v is None else f"{v:.1f} m", exp.value))))
    if act is None or exp is None or not isinstance(act, BaseException):
        return agree(exp, act)
    return [False]


def raiser(e):
    def f():
        raise e
    return f


class Dicts:
    name = "dicts"
    request = {}

    def parts(self, obj, rep):
        try:
            fs = dicts.parts(model.D, obj, rep.what, SymOps)
        except Exception as e:
            fs = [raiser(e)]
        return [lambda f=f: self.part(f) for f in fs]

    @staticmethod
    def part(f):
        n = 0
        what = "as_dict()"
        try:
            for path, e, a in f():
                what = path
                n += 1
                bad = None if e is a else refute(conditions(e, a))
                if bad is not None:
                    return bad, n, path
        except Exception:
            return CTX.store.sample(prove.random.Random(1)), n + 1, what
        return None, n, what

    def concrete(self, ans, r):
        x = ans.get("extra")
        if x is None:
            return None
        return x["path"], x["expected"], x["actual"]


class Readers:
    """C04, C15: every reading of the report ends without exception, prints nothing
    and changes nothing of the report."""
    name = "readers"

    def __init__(self, what):
        self.what = what              # "total", "pure"
        self.request = {"what": what}
        self.paths = {}

    def readings(self, rep):
        asg = prove.all_asg(rep, CTX.store.sample(prove.random.Random(3)))
        a = prove.PLAIN.ask({"op": "paths", "cls": rep.what, "text": core.assign(rep.text(), asg), "year": rep.year,
                             "month": rep.month})
        if isinstance(a, dict):
            return []
        return a

    def parts(self, obj, rep):
        paths = self.readings(rep)
        groups = {}
        for p in paths:
            groups.setdefault(p.split(".")[0] if self.what == "pure" else p, []).append(p)
        self.before = state.Snap(obj) if self.what == "pure" else None
        self.shallow = state.shallow(self.before) if self.what == "pure" else None
        self.hidden = []
        fs = [lambda g=g: self.part(obj, g) for g in groups.values()]
        if self.what == "pure":
            fs.append(lambda: self.frame(obj, paths))
        return fs

    def part(self, obj, paths):
        n = 0
        for p in paths:
            n += 1
            CTX.hooks["printed"] = []
            try:
                read(obj, p)
            except Exception:
                if self.what == "total":
                    return CTX.store.sample(prove.random.Random(1)), n, p
            if self.what == "total" and CTX.hooks["printed"]:
                return CTX.store.sample(prove.random.Random(1)), n, p
        if self.before is not None:
            after = state.Snap(obj)
            if after.key != self.before.key:
                # attributes that only the readings use, perhaps: they must not matter
                ch = state.changed(self.shallow)
                for x, name, old in ch:
                    if not any(h[0] is x and h[1] == name for h in self.hidden):
                        self.hidden.append((x, name, old))
                    setattr(x, name, old)
                if not ch or state.Snap(obj).key != self.before.key:
                    return (CTX.store.sample(prove.random.Random(1)), n,
                            f"state after reading {paths[0].split('.')[0]} ({state.diff(self.before, after)})")
        return None, n, ""

    def frame(self, obj, paths):
        """The attributes written by the readings do not matter to any reading."""
        if not self.hidden:
            return None, 0, ""
        n = 0
        poison = state.Poison()
        try:
            for p in paths:
                n += 1
                for x, name, _ in self.hidden:
                    setattr(x, name, poison)
                try:
                    if state.has_poison(read(obj, p)):
                        raise state.Touched()
                except state.Touched:
                    return CTX.store.sample(prove.random.Random(1)), n, p
                except Exception:
                    pass
                # nothing else changed
                for x, name, old in self.hidden:
                    setattr(x, name, old)
                if state.Snap(obj).key != self.before.key:
                    return CTX.store.sample(prove.random.Random(1)), n, p
        finally:
            for x, name, old in self.hidden:
                setattr(x, name, old)
        return None, n, ""

    def concrete(self, ans, r):
        x = ans.get("extra")
        if x is None:
            return None
        return x["path"], x["expected"], x["actual"]


TREES = {"weathers": "weather", "clouds": "cloud", "runway_ranges": "rvr", "windshears": "windshear"}


class Other:
    """C26: the attributes that do not describe the group under test are those of the
    report without it; the state of the package and of the other reports is left as it was."""
    name = "other"

    def __init__(self, make):
        self.make = make                 # gives (Rep, group under test)
        self.rep = None
        self.request = {}
        self.base = state.package()
        self.tables = state.tables()

    def prepare(self, rep, g):
        """The report without the group, and the pairs of readings that must agree."""
        self.rep = rep
        where = [None if g in rep.body else i for i in range(max(1, len(rep.sections)))
                 if g in rep.body or i < len(rep.sections) and g in rep.sections[i]][0]
        drop = lambda gs: [x for x in gs if x is not g]
        new = report.Rep(rep.what, drop(rep.body), [drop(s) for s in rep.sections], rep.remark, rep.year, rep.month)
        order = {"metar": (report.METAR_ORDER, report.TREND_ORDER), "taf": (report.TAF_ORDER, report.CHANGE_ORDER)}[rep.what]
        lists = [(rep.body, new.body, order[0])] + [(a, b, order[1]) for a, b in zip(rep.sections, new.sections)]
        # a section that is left with nothing but its indicator is not the same section
        gone = g.kind != "vis" and all(len(s) > 1 for s in new.sections)
        for a, b, o in lists:
            if [(k, id(x)) for k, x in report.decode(a, o)[0] if x is not g] != \
                    [(k, id(x)) for k, x in report.decode(b, o)[0]]:
                gone = False
        kind = next((k for a, _, o in lists for k, x in report.decode(a, o)[0] if x is g), g.kind)
        if not gone:
            from .contexts import instance
            asg = {v: v.dom[len(v.dom) // 2] for v in core.all_vars(g.text)}
            h = instance(g, asg)
            swap = lambda gs: [h if x is g else x for x in gs]
            new = report.Rep(rep.what, swap(rep.body), [swap(s) for s in rep.sections], rep.remark, rep.year, rep.month)
        place = "" if where is None else f"{'weather_trends' if rep.what == 'metar' else 'changes_forecasted'}[{where}]"
        loc = ("max" if g.extra["max"] else "min") + "_temperatures" if kind == "ttemp" else \
            report.LISTS.get(kind, (None, 0))[0]
        same_list = lambda x: kind != "ttemp" or x.extra["max"] == g.extra["max"]
        first = None
        if loc:
            same = [x for k, x in report.decode(rep.body if where is None else rep.sections[where],
                                                order[0] if where is None else order[1])[0] if k == kind
                    and same_list(x)]
            first = [i for i, x in enumerate(same) if x is g][0]
        pairs = []
        prefix = (place + "." if place else "") + (loc or "")
        for o in rep.expected(False):
            if o.where == "report" or o.kind in ("section", "sections", "unparsed"):
                continue
            mine = o.path.startswith(place + ".") if place else o.where == "body"
            p = pb = o.path
            if o.kind == "list":
                if o.attr == "codes" and o.obj in ("weather_trends", "changes_forecasted") and place:
                    continue
                if mine and loc and o.obj == prefix:
                    continue
            elif mine and o.kind in ("rules", "ceiling"):
                continue
            elif mine and o.kind == kind:
                if not loc or not o.obj.startswith(prefix + "["):
                    continue
                i = int(o.obj[len(prefix) + 1:].split("]")[0])
                if i == first:
                    continue
                if gone and i > first:
                    pb = prefix + f"[{i - 1}]" + o.path[len(prefix) + len(f"[{i}]"):]
            pairs.append((p, pb))
        self.pairs = pairs
        self.request = {"base": new.text() if isinstance(new.text(), str) else None, "pairs": pairs}
        a = prove.PLAIN.ask({"op": "report", "cls": rep.what, "text": new.text(), "year": rep.year, "month": rep.month,
                             "paths": [b for _, b in pairs]})
        self.values = a["values"] if isinstance(a, dict) and a.get("built") is True else []
        if not self.values:
            self.request["base"] = None
            self.pairs = []

    def parts(self, obj, rep):
        fs = [lambda p=p, e=e: self.same(obj, p[0], e) for p, e in zip(self.pairs, self.values)
              if not isinstance(e, Raised)]
        return fs + [lambda: self.frame(obj, rep)]

    @staticmethod
    def same(obj, path, e):
        try:
            v = read(obj, path)
        except Exception as x:
            v = Raised(x)
        return refute(agree(e, v)), 1, path

    def frame(self, obj, rep):
        bad = lambda what: (CTX.store.sample(prove.random.Random(1)), 3, what)
        p = state.package()
        if p.key != self.base.key:
            return bad("state of the package after building the report: " + str(state.diff(self.base, p)))
        a = state.Snap(obj)
        try:
            two = prove.cls_of(rep)(rep.text(), year=rep.year, month=rep.month)
        except Exception:
            return bad("building the report again")
        if state.Snap(obj).key != a.key:
            return bad("state of the report after building another")
        own = {id(x) for x, _ in p.objects}
        mine = {id(x) for x, _ in a.objects}
        for x, path in state.Snap(two).objects:
            if id(x) in mine and id(x) not in own and id(x) not in self.tables:
                return bad(f"two reports share {path}")
        return None, 3, ""

    def concrete(self, ans, r):
        x = ans.get("extra")
        if x is None:
            return None
        return x["path"], x["expected"], x["actual"]
