#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
from props import PROPS
ids = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = ("TLC explores the model exhaustively within its lattice; the calls it reaches, and seeded random ones, are run on "
        "/repo and every recorded outcome is judged by the TLA+ post-conditions in exact rational arithmetic. "
        "Not a proof for all floats: bounded lattice plus samples. sin, cos and the float-to-rational reading are trusted.")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in ids:
    i = p["id"]
    if i in PROPS:
        m["checks"].append({"property": i, "quick_cmd": "./check %s --tier quick" % i,
                            "thorough_cmd": "./check %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": "TLA+ model checked by TLC, bound to the code by replay of TLC-generated calls and TLC trace validation",
                            "level": "model_checking",
                            "level_note": PROPS[i].get("note", NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check has been built for it yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
