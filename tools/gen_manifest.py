"""Writes MANIFEST.json from properties.jsonl and index.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from index import INDEX
NA = {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in INDEX:
        checks.append({"property": i, "quick_cmd": "./check.py %s" % i, "thorough_cmd": "./check.py %s --tier thorough" % i,
                       "technique": "symbolic execution of the current sources with z3; counterexamples replayed on the real code",
                       "level": "model_checking", "level_note": INDEX[i]["note"] + " Outside: " + INDEX[i]["outside"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
