#!/usr/bin/env python3
"""Writes MANIFEST.json from props_config.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props_config import CONFIG, NOT_CLAIMED
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = dict(version=1, setup_cmd="mkdir -p build evidence replays && /usr/bin/clang++-18 --version >/dev/null && python3 -c 'import props_config'",
         checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CONFIG:
        c = CONFIG[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i,
            technique=c.get("technique", "explicit-state model checking of the real code: exhaustive enumeration of inputs, configurations and call histories against an executable specification"),
            level=c.get("level", "model_checking"),
            level_note="Exhaustive within bounds: " + c["bounds"] + ". Assumes: " + "; ".join(c.get("assumptions", [])) + ". Trusts the compiler and the executable specification in harness/."))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_CLAIMED.get(i, "check under construction")))
m["notes"] = "No hooks in /repo: every harness compiles /repo's headers unmodified and uses the public API only."
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
