"""Writes properties.jsonl and MANIFEST.json from one table (tools/props.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOTES  # noqa

PY = "/opt/venv/bin/python"


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = {
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["forall"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p.get("na"):
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            checks.append(
                {
                    "property": p["id"],
                    "quick_cmd": "%s check.py %s --tier quick" % (PY, p["id"]),
                    "thorough_cmd": "%s check.py %s --tier thorough" % (PY, p["id"]),
                    "technique": p.get("technique", "solver-based dynamic symbolic execution of the real Python code (z3), all paths within bounds"),
                    "level": "model_checking",
                    "level_note": p["note"],
                }
            )
    m = {"version": 1, "setup_cmd": "%s tools/setup_check.py" % PY, "checks": checks, "not_applicable": na, "notes": NOTES}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
