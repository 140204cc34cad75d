#!/usr/bin/env python3
# Regenerates MANIFEST.json from props.py (what is built) and properties.jsonl.
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/bin")
from props import PROPS
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
TECH = "stateless model checking: exhaustive enumeration of executions of the real code"
m = {"version": 1, "setup_cmd": "python3 bin/check.py --setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 bin/check.py {i} quick", "thorough_cmd": f"python3 bin/check.py {i} thorough",
            "technique": P.get("technique", TECH), "level": P["level"], "level_note": P["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built (yet): see DESIGN.md"})
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
