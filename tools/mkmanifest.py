"""writes MANIFEST.json from plan.py and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN
try: from plan import NOTES
except ImportError: NOTES = {}
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
chk, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        chk.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
          "technique": NOTES.get(i, {}).get("technique", "bounded exhaustive enumeration of operation sequences, executed on the implementation (stateless model checking) against a reference model"),
          "level": "model_checking", "level_note": NOTES.get(i, {}).get("note", "bounds stated in DESIGN.md; every execution runs the real code built from /repo")})
    else: na.append({"property": i, "reason": NOTES.get(i, {}).get("reason", "machinery for this property is not finished yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/build.py " + " ".join(sorted({m["variant"] for l in PLAN.values() for m in l})), "checks": chk, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
