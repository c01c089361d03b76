"""Writes MANIFEST.json from the claimed checks; the rest of properties.jsonl is listed as not (yet) claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from claims import CLAIMS, REASONS
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup",
     "checks": [{"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                 "technique": CLAIMS[p][0], "level": "model_checking", "level_note": CLAIMS[p][1]} for p in props if p in CLAIMS],
     "not_applicable": [{"property": p, "reason": REASONS.get(p, "check not built yet")} for p in props if p not in CLAIMS],
     "notes": "TLA+ specifications (spec/) checked with TLC; recorded behaviour of the real code is judged by the same specifications. No hooks in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])
