#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/props.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
from props import PROPS

ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    c = PROPS[i]
    models = ", ".join(m["module"] for m in c.get("mc", ()))
    checks.append({
        "property": i,
        "quick_cmd": "bash run.sh %s" % i,
        "thorough_cmd": "bash run.sh %s" % i,
        "technique": "TLA+ specification checked with TLC (%s); conformance of the real code by trace validation (%s)%s"
                     % (models, c["trace"], " and replay of TLC-generated behaviours" if c.get("beh") else ""),
        "level": "model_checking",
        "level_note": c.get("note", "The specification is exhausted by TLC on small constants; every recorded execution of the real code "
                            "(seeded inputs, boundary grids and behaviours generated from the model) must be a step the "
                            "specification allows at full scale. Inputs not generated are not covered; trusts TLC and the driver's projections."),
    })
m = {
    "version": 1,
    "setup_cmd": "bash lib/setup.sh",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": "no check registered yet"} for i in ids if i not in PROPS],
    "notes": "TLA+ (TLC) throughout. spec/ holds the specification, harness/ the Go drivers, lib/check.py the orchestration.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
