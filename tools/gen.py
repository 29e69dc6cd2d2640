import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, NA
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/properties.jsonl", "w") as f:
    for p in sorted(P + NA, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        if p["state"]:
            d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        if p["observe"]:
            d["anchors"]["observe_at"] = list(p["observe"])
        f.write(json.dumps(d) + "\n")
m = {"version": 1,
     "setup_cmd": "python3 -m compileall -q bsa check.py",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                 "thorough_cmd": f"python3 check.py {p['id']}",
                 "technique": p["technique"], "level": "other",
                 "level_note": p["note"]} for p in P],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
     "notes": "Static analysis only (bsa/: an abstract interpreter over the syntax trees of "
              "/repo/src/backy, rules in bsa/rules). No hooks in /repo; the analysis parses the "
              "working tree on every run. See DESIGN.md."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
