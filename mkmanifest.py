"""Writes MANIFEST.json from the checks that are defined."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from pyvc import loader  # noqa: E402

loader.install(os.environ.get("VERIF_REPO", "/repo"))
from checks import calendar_, defs, lists_, sections_, stations_, total_, units_  # noqa: E402,F401

TECH = "contracts on the code of /repo, discharged path by path by the pyvc verifier (exhaustive tables on symbolic reports)"
NOTES = json.load(open(os.path.join(ROOT, "notes.json")))
checks, missing = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in defs.CHECKS:
        missing.append({"property": p, "reason": NOTES.get("na", {}).get(p, "the check is not built yet")})
        continue
    c = defs.CHECKS[p]
    checks.append({
        "property": p, "quick_cmd": f"python3-vt checks/run.py {p}",
        "thorough_cmd": f"VERIF_TIER=thorough python3-vt checks/run.py {p}",
        "technique": NOTES["technique"].get(p, TECH), "level": c.level,
        "level_note": NOTES["note"].get(p) or NOTES["note"]["default"]})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, cvc5'", "checks": checks, "not_applicable": missing}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as o:
    json.dump(m, o, indent=1)
    o.write("\n")
print(len(checks), "claimed;", [x["property"] for x in missing], "not")
