#!/opt/venv/bin/python
"""replay.py FILE: runs the violation recorded in a replay file against the unmodified code in /repo."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    from sx import conc
    conc.setup()
    r = json.load(open(sys.argv[1]))
    res = conc.run({"prop": r["property"], "module": r["module"], "scenario": r["scenario"], "params": r["params"],
                    "inputs": r["inputs"], "timeout": 30})
    print(json.dumps(res, indent=1))
    bad = res["fails"] or res["status"] in ("exc", "hang")
    print("REPRODUCED" if bad else "not reproduced")
    sys.exit(1 if bad else 0)
