"""Writes MANIFEST.json from PROPS."""
import json, os
from props import PROPS
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(base, "properties.jsonl"))]
checks = [{"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i + " --thorough",
           "technique": PROPS[i].get("technique", "TLA+ specification checked with TLC; its behaviours replayed into the real code"),
           "level": "model_checking", "level_note": PROPS[i].get("note", "")} for i in ids if i in PROPS]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": "not built yet"} for i in ids if i not in PROPS]}
open(os.path.join(base, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
