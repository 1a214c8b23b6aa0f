import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here); sys.path.insert(0, here)
from props import P
try:
    from props import NA
except ImportError:
    NA = []
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["prop"]["title"]) <= 80, p["prop"]["title"]
        f.write(json.dumps(p["prop"]) + "\n")
    for n in NA:
        if "prop" in n:
            f.write(json.dumps(n["prop"]) + "\n")
m = {"version": 1, "setup_cmd": "./check --selftest", "checks": [], "not_applicable": [dict(property=n["property"], reason=n["reason"]) for n in NA],
     "notes": "No hooks in /repo: every check drives the unmodified public API. Each check imports toughio from /repo's working tree in a fresh process."}
for p in P:
    i = p["prop"]["id"]
    m["checks"].append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i, "evidence_file": "evidence/%s.json" % i,
                        "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(P), "properties")
