#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one table)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        over = p["over"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": over, "text": p["quant"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
NOTE = ("Abstract interpretation over the SSA form of /repo's current source: every path class, all inputs, widened loops; "
        "a silent run means the rules hold on every analysed path. Assumes 64-bit int does not overflow, distinct pointer "
        "parameters do not alias, and the modelled behaviour of the standard library functions named in DESIGN.md. ")
m = {"version": 1,
     "setup_cmd": "bash -c 'cd checker && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0 go build -o /dev/null .'",
     "checks": [], "not_applicable": []}
for p in PROPS:
    if p.get("na"):
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "bash run.sh %s quick" % p["id"],
            "thorough_cmd": "bash run.sh %s thorough" % p["id"],
            "technique": p["tech"], "level": "other", "level_note": NOTE + p.get("note", "")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    if n > 3: print("statement of", p["id"], "has", n, "sentences")
