#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import PROPS, FAMILIES
VERIF = os.path.dirname(HERE)
ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    mods = sorted({d[0] for d in p["design"]})
    tr = sorted({FAMILIES[f]["trace"] for f in p["families"]})
    checks.append({
        "property": i,
        "level": p["level"],
        "technique": "TLA+ specification checked with TLC%s; sessions of the real code recorded (%s%s) and validated by TLC against the trace specification%s %s" % (
            (" (" + ", ".join(mods) + ")") if mods else "",
            "replaying behaviours TLC generated, and seeded random ones" if any(FAMILIES[f].get("gen") for f in p["families"]) else "seeded random behaviours",
            "", "s" if len(tr) > 1 else "", ", ".join(tr)),
        "level_note": "The design model is checked exhaustively within its bounds. The code is bound to it by trace validation: every recorded session must be a behaviour of the specification. Conclusions about the code hold for the sessions recorded (generated by TLC, and seeded random ones), not for all inputs. " + p.get("note", ""),
        "quick_cmd": "VERIF_TIER=quick bin/check " + i,
        "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
        "evidence_file": "evidence/%s.json" % i,
    })
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "hooks": None, "checks": checks,
     "not_applicable": [{"property": i, "reason": "not claimed yet"} for i in ids if i not in PROPS]}
del m["hooks"]
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
