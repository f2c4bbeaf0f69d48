"""What all the checks share."""
import os
import random
import re

from contracts import prove

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    "CPython 3.12 and its standard library (re, datetime, json, float arithmetic), as executed",
    "the pyvc verification engine of /verif/pyvc (path exploration, finite tables, symbolic strings); every path is "
    "also replayed with a concrete instance on the plain code of /repo",
    "the mechanical instrumentation of pyvc/loader.py: calls, f-strings, %, in, is, not and subscript reads of the "
    "current source go through helpers, stores are announced, nothing else is changed or dropped",
    "the specification in /verif/contracts",
]
ASSUMPTIONS = [
    "report texts are ASCII; words that contain '_' (the join marker of the code) are outside the contracts",
    "the package is used through its public classes, from one thread",
]


class Task:
    """A unit of proof: run(stats) gives a Failure or None; standin is the bounded
    check used when the engine cannot decide."""

    def __init__(self, name, run, standin=None, cost=1.0):
        self.name = name
        self.run = run
        self._standin = standin
        self.cost = cost

    def standin(self, st, e):
        if self._standin is None:
            return None
        return self._standin(st)


class Check:
    def __init__(self, tasks, level="proof", explanation="", assumptions=(), trusted=()):
        self.tasks = tasks
        self.level = level
        self.explanation = explanation
        self.assumptions = list(assumptions)
        self.trusted = list(trusted)


def known():
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) match=<(.*?)> (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


_KNOWN = None


def is_known(pid, f):
    """Description of the listed finding that this failure is, or None."""
    global _KNOWN
    if _KNOWN is None:
        _KNOWN = known()
    for p, pat, desc in _KNOWN:
        if p == pid and re.fullmatch(pat, f.obligation):
            return desc
    return None


def rng(name):
    return random.Random(os.environ.get("VERIF_SEED", "1") + name)


def report_task(name, make, keep, texts=False, extra=None, cost=1.0, n=60, **kw):
    """Contract of a report shape: make() gives the Rep."""
    def run(st):
        return prove.check_report(make(), name, keep, st, texts, extra, **kw)

    def standin(st):
        rep = make()
        return prove.battery(rep, name, keep, st, texts, extra, rep.text(), rng(name), n, **kw)
    return Task(name, run, standin, cost)
