"""Test of pyvc/segs.py: what it accepts as independent of the unknown parts is so on random values of them.

Not a check of the code of /repo: run by hand, python3-vt selftest/segs_test.py"""
import os
import random
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import dfa, segs  # noqa: E402

r = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
KEYS = ("FM", "TEMPO", "BECMG", "PROB")
out = segs.Outside([dfa.Lang("fullmatch", p, alphabet=segs.ALPHA) for p in ("[0-9]{1,4}", "WS", "R[0-9]{2}[LRC]?", "[A-Z]{4}")])
kinds = [segs.Words(KEYS), segs.Word({"30", "40"}), segs.Word({"TAF", "COR"}), out]
parts = [segs.part(3000 + i, k) for i, k in enumerate(kinds)]
ATOMS = ["FM", "TEMPO", "PROB", "30", "40", " ", " ", " ", "\n", "=", "TAF", "COR", "WS", "R07", "1/2SM", "12", "A", "X", "T"]
PIECES = ["FM", "TEMPO", " ", r"\s", r"\s{2,}", r"\S", r"\s+", r"\s+", " +", r"\s", r"\d{1,2}", r"[34]0", "PROB", "=", r"(?<=\s)", r"(?<!\S)", r"(?!\S)", r"(?=\s)",
          r"(?= FM)", r"(?!TEMPO)", r"\b", "^", "$", "WS", r"R\d{2}[LRC]?", "A", "X?", "(?:FM|TEMPO)", "(TAF )?", r"\d/[1-9]SM", "T",
          r"(?<=\s\d)", "[A-Z]", "[^=]", r"\n+", "O", "Z"]
CH = "FMTEPOBCG0123456789 AXRWS/Z"


def value(k):
    while True:
        n = r.randrange(1, 12)
        if r.random() < 0.5:
            t = "".join(r.choice(CH) for _ in range(n))
        else:
            t = r.choice(["X", "A ", "1 ", "M", "", "R07", "TAF ", "XPROB30", "O", "EMPO", "A 12", "1/2SM", "A 1", "0", "XFM", "ROB30"])
        s = k.start
        for c in t:
            s = k.step(s, c) if c in k.chars() else None
            if s is None:
                break
        if s is not None and t and k.final(s):
            return t


accepted = refused = 0
while accepted < 3000:
    text = "".join(r.choice(parts) if r.random() < 0.35 else r.choice(ATOMS) for _ in range(r.randrange(1, 8)))
    pat = "".join(r.choice(PIECES) for _ in range(r.randrange(1, 4)))
    try:
        pat = re.compile(pat)
    except re.error:
        continue
    whole = r.random() < 0.3
    blank = not whole and r.random() < 0.5
    if not segs.unknown(text) or not segs.natural(pat, text, whole, blank):
        refused += 1
        continue
    accepted += 1
    for _ in range(25):
        v = {c: value(k) for c, k in zip(parts, kinds)}
        put = lambda s: "".join(v.get(c, c) for c in s)
        if whole:
            a, b = pat.match(text), pat.match(put(text))
            ok = (a is None) == (b is None) and (a is None or put(a.group()) == b.group())
        else:
            x = " " if blank else "<>"
            ok = put(pat.sub(x, text)) == pat.sub(x, put(text))
            if blank and not pat.groups:
                ok = ok and put(" ".join(pat.split(text))) == " ".join(pat.split(put(text)))
        if not ok:
            print("WRONG", pat.pattern, repr(text), whole, v)
            sys.exit(1)
print(accepted, "accepted,", refused, "refused, all right")
