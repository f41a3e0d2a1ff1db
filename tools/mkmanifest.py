"""Regenerates MANIFEST.json from the check modules and properties.jsonl."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools import notes

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        m = importlib.import_module("checks." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": notes.TECHNIQUE.get(i, notes.DEFAULT),
            "level": m.LEVEL,
            "level_note": notes.LEVEL_NOTE.get(i, notes.DEFAULT_NOTE),
        })
    else:
        na.append({"property": i, "reason": notes.NA.get(
            i, "check not built yet")})
out = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "ACV_HOOKS", "enable":
              "no hooks were needed: the monitors observe the compiler's "
              "results and execute its output", "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": notes.NOTES,
}
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
