"""C16-C19: the dates."""
import calendar
import datetime as dt
import itertools

from contracts import contexts as cx
from contracts import dates, grammar, prove
from contracts.model import When
from contracts.report import Rep
from pyvc.core import lift, var

from .common import Check, report_task
from .defs import CHECKS, header_shapes, of, ttemps

EXTREMES = ("00", "23", "24")


def head(what, t, *more, **kw):
    g = [dates.rtype(what.upper()), dates.station()] + ([t] if t is not None else []) + list(more)
    return Rep(what, g, **kw)


def time_of(year, month, clock, days, hours, minutes):
    """The time group when the year or the month may come from the clock."""
    d, h, m = var("day", days), var("hour", hours), var("min", minutes)
    c = clock[0] if clock else None

    def day(y, mo, c, x, z):
        r = dt.date(c.year if y is None else y, c.month if mo is None else mo, int(x))
        return r + dt.timedelta(days=1) if z == "24" else r
    return dates.G("time", [d, h, m, "Z"], {"time": When(
        lift(day, year, month, c, d, h), lift(lambda z, y: int(z) % 24 * 60 + int(y), h, m))}, "time")


def span(a, b):
    d, out = a, []
    while d <= b:
        out.append(d)
        d += dt.timedelta(days=1)
    return out


def the_clock(long=False, days=None):
    if days is None:
        days = span(dt.date(2023, 12, 1), dt.date(2024, 12, 31)) + [dt.date(1999, 12, 31), dt.date(2000, 1, 1),
                                                                    dt.date(2000, 2, 29), dt.date(2099, 12, 31)]
        if long:
            days += span(dt.date(2026, 1, 1), dt.date(2029, 12, 31))
    return (lift(lambda x: x, var("today", days)), lift(int, var("now", ["0", "1", "659", "660", "1081", "1439"])))


YEARS = list(range(1000, 9999))


def c16(tier):
    keep = of("time")
    quick = tier == "quick"
    # every minute of every day of the months
    for y in (2023, 2024) if quick else (1900, 2000, 2022, 2023, 2024, 2025, 2026, 2027, 2028, 2099, 2100):
        for m in range(1, 13):
            for what in ("metar", "taf"):
                if quick and what == "taf" and y != 2024:
                    continue
                yield report_task(f"{what} of {y}-{m:02d}", lambda what=what, y=y, m=m: head(
                    what, dates.time_group(y, m), year=y, month=m), keep, texts=what == "metar")
    # every year
    for m in range(1, 13):
        def any_year(what, m, t, leap=None):
            ys = YEARS if leap is None else [y for y in YEARS if calendar.isleap(y)]
            y = lift(lambda x: x, var("year", ys))
            days = ["29"] if leap else ["01", "02", "%02d" % calendar.monthrange(2023, m)[1]]
            g = time_of(y, m, None, days, EXTREMES, ("00", "59")) if t else None
            return head(what, g, year=y, month=m)
        for what in ("metar", "taf"):
            if not quick or m in (1, 2, 12) or what == "metar":
                yield report_task(f"{what} of month {m} of any year", lambda what=what, m=m: any_year(what, m, True), keep)
                yield report_task(f"{what} of month {m} of any year without time", lambda what=what, m=m: any_year(
                    what, m, False), keep)
        if m == 2:
            yield report_task("metar of 29 February of any leap year", lambda m=m: any_year("metar", 2, True, True), keep)
    # the clock
    for what in ("metar", "taf"):
        for y, m in ((None, None), (2021, None), (None, 1), (None, 12), (2024, 2), (2021, 3)):
            for t in (True, False):
                def make(what=what, y=y, m=m, t=t):
                    c = the_clock(not quick)
                    g = time_of(y, m, c, ["01", "15", "28"], EXTREMES, ("00", "59")) if t else None
                    more = [dates.the_valid("0712/0812")] if what == "taf" and t else []
                    return head(what, g, *more, cx.fixed("wind", "27010KT", what), year=y, month=m, clock=c)
                yield report_task(f"{what} of year {y} and month {m}, {'with' if t else 'without'} time, any clock", make, keep)
        def long_months(what=what):
            c = the_clock(days=[d for y in (2023, 2024) for m in (1, 3, 5, 7, 8, 10, 12)
                                for d in span(dt.date(y, m, 1), dt.date(y, m, 31))])
            return head(what, time_of(None, None, c, ["29", "30", "31"], EXTREMES, ("00", "59")), clock=c, year=None, month=None)
        yield report_task(f"{what} at the end of the month of the clock", long_months, keep)
    # nothing else reads the clock
    every = of("time", "valid", "ttemp", "tind", "cind")
    for n, f in header_shapes():
        def make(f=f):
            r = f()
            r.clock = the_clock()
            return r
        yield report_task(f"{n}, any clock", make, every)


CHECKS["C16"] = Check(c16, explanation="the time of METAR and TAF for every minute of every day of the months named, the first and "
                      "last days of every month and 29 February of every year from 1000 to 9998, with a symbolic clock (the local "
                      "time of the model is not UTC) when the year or the month is not given, and showing that no date reads it "
                      "when both are given")


# ------------------------------------------------------------------ C17

def c17(tier):
    quick = tier == "quick"
    keep = of("valid", "ttemp", "cind")
    all_months = [(2023, 2), (2023, 4), (2023, 12), (2024, 1), (2024, 2)] if quick else \
        [(y, m) for y in (2000, 2023, 2024, 2100) for m in range(1, 13)]
    few = ("00", "23")
    wind = lambda: cx.fixed("wind", "27010KT", "taf")
    for y, m in all_months:
        kw = dict(year=y, month=m)
        md = dates.month_days(y, m)
        issue = lambda md=md, y=y, m=m, hours=EXTREMES, minutes=("00", "30", "59"): time_of(y, m, None, md, hours, minutes)
        # valid period of the TAF
        for day in (md[:1] + md[-2:] if quick else md):
            yield report_task(f"valid period from an issue on {day} of {y}-{m:02d}", lambda day=day, y=y, m=m, kw=kw: head(
                "taf", time_of(y, m, None, [day], ("00", "23"), ("00", "59")), dates.valid_group(fmhours=few, tlhours=("00", "23")), **kw), keep, cost=8)
            yield report_task(f"valid period from an issue on {day} of {y}-{m:02d}, all the hours",
                              lambda day=day, y=y, m=m, kw=kw: head("taf", time_of(
                                  y, m, None, [day], dates.HOURS, ("00", "30", "59")), dates.valid_group(
                                  (day, "01", "31"), fmhours=dates.HOURS23), **kw), keep, cost=2)
        yield report_task(f"no valid period, {y}-{m:02d}", lambda y=y, m=m, kw=kw: head(
            "taf", dates.time_group(y, m), wind(), **kw), keep)
        yield report_task(f"no valid period and no time, {y}-{m:02d}", lambda kw=kw: head("taf", None, wind(), **kw), keep)
        # temperatures
        for w in "XN":
            if quick and w == "N" and m != 2:
                continue
            yield report_task(f"T{w} from any issue of {y}-{m:02d}", lambda w=w, issue=issue, kw=kw: head(
                "taf", issue(), ttemps(w, dates.DAYS, dates.HOURS23), **kw), keep, cost=3)
        # changes, from the start of the TAF
        last = "%02d" % len(md)
        starts = [[d] for d in (md[-1:] if quick else md)]
        for ds in starts:
            for ind in ("TEMPO",) if quick else ("TEMPO", "BECMG", "PROB30", "PROB40", "PROB30 TEMPO", "PROB40 TEMPO"):
                def change(ds=ds, ind=ind, y=y, m=m, kw=kw):
                    r = head("taf", time_of(y, m, None, ["01"], ("00",), ("30",)), dates.valid_group(
                        ds, fmhours=few, tlhours=("00", "24")), wind(), **kw)
                    r.sections = [[dates.cind(ind), dates.valid_group(dates.DAYS, "cper", few, ("00", "23")), wind()]]
                    return r
                yield report_task(f"{ind} from the {ds[0]} of {y}-{m:02d}", change, keep, cost=9)

            def late(ds=ds, y=y, m=m, kw=kw):
                r = head("taf", time_of(y, m, None, ["01"], ("00",), ("30",)), dates.valid_group(
                    [*ds, "01"], fmhours=few, tlhours=("00", "24")), wind(), **kw)
                r.sections = [[dates.cind("TEMPO"), dates.valid_group([*ds, "01", "02"], "cper", few), wind()]]
                return r

            def fm(ds=ds, y=y, m=m, kw=kw):
                r = head("taf", time_of(y, m, None, ["01"], ("00",), ("30",)), dates.valid_group(
                    ds, fmhours=few, tlhours=("00", "24")), wind(), **kw)
                r.sections = [[dates.fm_group(dates.DAYS), wind()]]
                return r
            yield report_task(f"TEMPO from the {ds[0]} of {y}-{m:02d}, all the hours", late, keep, cost=4)
            yield report_task(f"FM from the {ds[0]} of {y}-{m:02d}", fm, keep, cost=6)
    # all the hours
    for ind in ("BECMG", "PROB30") if quick else ("TEMPO", "BECMG", "PROB30", "PROB40", "PROB30 TEMPO"):
        def hours(ind=ind):
            r = head("taf", time_of(2024, 2, None, ["28", "29"], dates.HOURS, ("00", "59")), dates.valid_group(["29", "01"]),
                     wind(), year=2024, month=2)
            r.sections = [[dates.cind(ind), dates.valid_group(["29", "01", "02"], "cper"), wind()]]
            return r
        yield report_task(f"{ind}, all hours", hours, keep, cost=4)

    # changes without valid period of the TAF, or of their own
    def bare(sections, valid=True):
        g = [dates.valid_group(["29"], fmhours=few, tlhours=("00", "24"))] if valid else []
        r = head("taf", time_of(2024, 2, None, ["28", "29"], EXTREMES, ("00", "59")), *g, wind(), year=2024, month=2)
        r.sections = sections
        return r
    for valid in (True, False):
        for ind in ("TEMPO", "BECMG", "PROB30", "PROB40 TEMPO"):
            yield report_task(f"{ind} without period, TAF with{'' if valid else 'out'} valid period", lambda ind=ind, valid=valid:
                              bare([[dates.cind(ind), wind()]], valid), keep)
        per = lambda: dates.valid_group(["29", "31"], "cper", few, ("00", "24"))
        yield report_task(f"change with period, TAF with{'' if valid else 'out'} valid period", lambda valid=valid: bare(
            [[dates.cind("TEMPO"), per(), wind()], [dates.cind("PROB30"), per(), wind()]], valid), keep, cost=3)
        yield report_task(f"FM, TAF with{'' if valid else 'out'} valid period", lambda valid=valid: bare(
            [[dates.fm_group(["28", "29", "01", "31"], few, ("00", "59")), wind()]], valid), keep)


CHECKS["C17"] = Check(c17, explanation="valid periods of TAF and of its changes, FM times and temperature times for every day "
                      "of issue or start and every reported day, in the months named (month ends of 28, 29, 30 and 31 days "
                      "and the year end)")


# ------------------------------------------------------------------ C18

def c18(tier):
    quick = tier == "quick"
    keep = lambda o: o.kind == "cind" or o.kind == "valid" or o.obj == "changes_forecasted"
    wind = lambda: cx.fixed("wind", "27010KT", "taf")

    def change(k, i, n):
        """The i-th of n changes; days and hours with some freedom."""
        days = ("07", "08")
        if k == "FM":
            return [dates.fm_group(days, ("%02d" % (i + 1), "%02d" % (i + 13)), ("00", "30")), wind()]
        if k == "FM0":
            return [dates.the_fm("FM07%02d30" % (13 + i)), wind()]
        if k in ("T0", "B0", "P0"):
            ind = {"T0": "TEMPO", "B0": "BECMG", "P0": "PROB30 TEMPO"}[k]
            return [dates.cind(ind), dates.the_valid("07%02d/07%02d" % (13 + i, 15 + i), "cper"), wind()]
        if k == "bare BECMG":
            return [dates.cind("BECMG"), wind()]
        if k == "bare TEMPO":
            return [dates.cind("TEMPO"), wind()]
        if k == "FM with period":
            return [dates.the_fm("FM07%02d30" % (13 + i)), dates.valid_group(days, "cper", ("14", "15"), ("18", "24")), wind()]
        return [dates.cind(k), dates.valid_group(days, "cper", ("%02d" % (i + 1), "%02d" % (i + 13)), ("18", "24")), wind()]

    def make(seq):
        h = [dates.rtype("TAF"), dates.station(), dates.the_time("071130Z", 2022, 3), dates.the_valid("0712/0818")]
        return Rep("taf", h + [wind()], [change(k, i, len(seq)) for i, k in enumerate(seq)])
    kinds = ["FM", "BECMG", "TEMPO", "PROB30", "PROB40 TEMPO"]
    for n in (1, 2, 3):
        for seq in itertools.product(kinds if n < 3 else ["FM", "BECMG", "TEMPO"], repeat=n):
            yield report_task("changes " + ", ".join(seq), lambda seq=seq: make(seq), keep, cost=n)
    small = ["FM0", "B0", "T0", "P0"]
    for n in (3, 4, 5) if quick else (3, 4, 5, 6):
        ks = small if n < 5 else small[:3]
        seqs = list(itertools.product(ks, repeat=n))
        for i in range(0, len(seqs), 27):
            part = seqs[i:i + 27]
            yield many(f"sequences of {n} changes {i}", [lambda s=s: make(s) for s in part], keep)
    long_ = [("FM0",) * 8, ("T0",) * 8, ("FM0",) + ("T0",) * 6 + ("B0",), ("FM0",) + ("P0",) * 6 + ("FM0",),
             ("T0", "FM0", "T0", "P0", "FM0", "T0", "B0", "FM0"), ("B0", "FM0", "P0", "P0", "T0", "B0", "T0", "FM0"),
             ("P0",) * 7 + ("FM0",), ("FM0", "B0") * 4]
    yield many("eight changes", [lambda s=s: make(s) for s in long_], keep)
    for seq in (("FM", "bare BECMG"), ("FM", "bare TEMPO", "FM"), ("FM", "bare TEMPO"), ("bare BECMG", "FM"),
                ("FM", "FM with period"), ("FM with period", "FM"), ("FM with period", "T0", "B0"), ("FM", "T0", "FM with period")):
        yield report_task("changes " + ", ".join(seq), lambda seq=seq: make(seq), keep)
    for name, f in edge_shapes():
        if "trend" not in name:
            yield report_task(name, f, keep)


def edge_shapes(full=False):
    """Changes and trends whose times may be those of the report."""
    days, hours = ("07", "08"), ("12", "18")
    body = [cx.fixed(k, t, "taf") for k, t in cx.TAF_FULL] if full else [cx.fixed("wind", "18010KT", "taf")]
    wind = lambda: cx.fixed("wind", "27010KT", "taf")

    def change(k):
        if k == "FM":
            return [dates.fm_group(days, hours, ("00", "30")), wind()]
        return [dates.cind(k), dates.valid_group(days, "cper", hours, hours), wind()]
    for n in (1, 2):
        for seq in itertools.product(("FM", "BECMG", "TEMPO", "PROB30"), repeat=n):
            yield "changes at the ends of the TAF " + ", ".join(seq), lambda seq=seq: Rep(
                "taf", cx.taf_header("071200Z", "0712/0818") + body, [change(k) for k in seq])
    for ps in (("FM",), ("TL",), ("AT",), ("FM", "TL")):
        yield "trends at the time of the report " + " ".join(ps), lambda ps=ps: Rep(
            "metar", cx.metar_header("071200Z") + [cx.fixed(k, t) for k, t in (cx.METAR_FULL if full else cx.METAR_FULL[:4])],
            [[dates.tind("TEMPO")] + [dates.tper_group(p, ("12", "14"), ("00", "30")) for p in ps] + [wind()],
             [dates.tind("BECMG")] + [dates.tper_group(p, ("12", "14"), ("00", "30")) for p in ps] + [wind()]])


def many(name, makers, keep):
    """One unit for several report shapes."""
    from .common import Task, rng

    def run(st):
        for i, f in enumerate(makers):
            fl = prove.check_report(f(), f"{name} [{i}]", keep, st, False, None)
            if fl:
                return fl
        return None

    def standin(st):
        for i, f in enumerate(makers):
            rep = f()
            fl = prove.battery(rep, f"{name} [{i}]", keep, st, False, None, rep.text(), rng(name), 5)
            if fl:
                return fl
        return None
    return Task(name, run, standin, len(makers))


CHECKS["C18"] = Check(c18, explanation="the period of every change of TAF with every sequence of up to five changes of the kinds "
                      "FM, BECMG, TEMPO and PROB (up to three with symbolic days, hours and minutes), and some of eight")


# ------------------------------------------------------------------ C19

def c19(tier):
    quick = tier == "quick"
    keep = lambda o: o.kind == "tind"
    wind = lambda: cx.fixed("wind", "27010KT", "trend")
    hours, minutes = dates.HOURS, ("00", "30", "59")
    for y, m in ((2022, 3), (2023, 12), (2024, 2), (2023, 2), (2023, 4)) if quick else [(y, m) for y in (2022, 2023, 2024, 2100) for m in range(1, 13)]:
        md = dates.month_days(y, m)
        t = lambda md=md, y=y, m=m, hs=dates.HOURS, ms=dates.MINUTES: time_of(y, m, None, md[-1:], hs, ms)
        kw = dict(year=y, month=m)

        def trend(groups, ind="TEMPO", t=t, kw=kw, **tk):
            r = head("metar", t(**tk), cx.fixed("wind", "18015KT"), **kw)
            r.sections = [[dates.tind(ind)] + groups() + ([wind()] if ind != "NOSIG" else [])]
            return r
        yield report_task(f"NOSIG of {y}-{m:02d}", lambda trend=trend: trend(lambda: [], "NOSIG"), keep)
        yield report_task(f"BECMG of {y}-{m:02d}", lambda trend=trend: trend(lambda: [], "BECMG"), keep)
        for p in ("FM", "TL", "AT"):
            yield report_task(f"{p} of {y}-{m:02d}", lambda p=p, trend=trend: trend(
                lambda: [dates.tper_group(p, hours, dates.MINUTES)], ms=minutes), keep, cost=2)
            yield report_task(f"{p} of {y}-{m:02d}, all the minutes of the report", lambda p=p, trend=trend: trend(
                lambda: [dates.tper_group(p, hours, ("00", "59"))], "BECMG"),
                keep, cost=2)
        for ps in (("FM", "TL"), ("AT", "AT"), ("FM", "AT"), ("TL", "FM"), ("FM", "FM"), ("AT", "TL")):
            yield report_task(f"{' '.join(ps)} of {y}-{m:02d}", lambda ps=ps, trend=trend: trend(
                lambda: [dates.tper_group(p, hours, ("00", "59")) for p in ps], hs=dates.HOURS[::4], ms=("00", "59")), keep, cost=4)
    # two trends, trend without time group of the report
    def two(with_time, a, b):
        r = head("metar", time_of(2023, 12, None, ["30", "31"], EXTREMES, ("00", "59")) if with_time else None,
                 cx.fixed("wind", "18015KT"), year=2023, month=12)
        per = lambda ps: [dates.tper_group(p, ("00", "01", "12", "22", "23", "24"), ("00", "30")) for p in ps]
        r.sections = [[dates.tind("TEMPO")] + per(a) + [wind()], [dates.tind("BECMG")] + per(b) + [wind()]]
        return r
    for wt in (True, False):
        for a, b in ((("FM",), ("TL",)), ((), ("AT",)), (("AT",), ()), (("FM",), ("FM",))):
            yield report_task(f"TEMPO {' '.join(a)} and BECMG {' '.join(b)}{'' if wt else ' without time'}",
                              lambda wt=wt, a=a, b=b: two(wt, a, b), keep)


CHECKS["C19"] = Check(c19, explanation="the periods of the trends for every hour and minute of the report and of the FM, TL and "
                      "AT groups, in the months named")
