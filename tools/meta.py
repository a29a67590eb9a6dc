#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS, NA
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p.get("obs", []), "hook_needed": None},
        }) + "\n")
checks = []
for p in PROPS:
    checks.append({
        "property": p["id"],
        "quick_cmd": "./run.sh " + p["id"],
        "thorough_cmd": "./run.sh " + p["id"],
        "technique": "deterministic simulation with fault injection: " + p["tech"],
        "level": "exploration",
        "level_note": p["note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "./run.sh --warm",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "No hooks are committed in /repo: the driver (sim/cmd/check) instruments a copy of /repo's sources at build time through go build -overlay (yield points at every statement; sync, time and os calls redirected to simulated ones), so the guard is the overlay itself. Replay: ./run.sh <id> -replay <file>.",
}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
