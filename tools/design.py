"""Rewrites the generated tables of DESIGN.md (bounds from the harness registry,
planted bugs from seeded/*/meta.json)."""
import glob
import json
import os
import re
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine import runner
import checks.all as allc


def bounds():
    for p in allc.MODULES:
        allc.load(p)
    out = ["| property | harness | bounds (quick; where the thorough tier differs, its bounds) |", "|---|---|---|"]
    for p in allc.MODULES:
        for h in runner.REGISTRY[p]:
            b = h.bounds
            q, t = (b("quick"), b("thorough")) if callable(b) else (b, b)
            out.append("| %s | `%s` | %s |" % (p, h.name, q + ("" if q == t else "<br>thorough: " + t)))
    return "\n".join(out)


def bugs():
    out = ["| property | planted bug | needs | breaks |", "|---|---|---|---|"]
    rows = []
    for f in glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")):
        d = json.load(open(f))
        rows.append((d["property"], os.path.basename(os.path.dirname(f)), d["needs"], d["what_it_breaks"]))
    for r in sorted(rows):
        out.append("| %s | `%s` | %s | %s |" % r)
    return "\n".join(out)


def fixes():
    out = ["| property | commit | what failed |", "|---|---|---|"]
    for f in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]:
        if f["status"] == "fixed":
            out.append("| %s | %s | %s |" % (f["property"], f["commit"], f["what"]))
    return "\n".join(out)


path = os.path.join(HERE, "DESIGN.md")
text = open(path).read()
for name, make in (("bounds", bounds), ("bugs", bugs), ("fixes", fixes)):
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    i, j = text.index(a) + len(a), text.index(b)
    text = text[:i] + "\n" + make() + "\n" + text[j:]
open(path, "w").write(text)
