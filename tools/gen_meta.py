"""Writes properties.jsonl and MANIFEST.json from props.py; a property is claimed when its check exists."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
NA = {}
try:
    from props import NOT_APPLICABLE as NA
except ImportError:
    pass
with open(os.path.join(verif, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "hook_needed": None}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in P:
    if p["id"] not in NA and os.path.exists(os.path.join(verif, "checks", p["id"].lower() + ".py")):
        checks.append({"property": p["id"], "quick_cmd": "./run " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough ./run " + p["id"],
                       "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "its check is not built yet")})
with open(os.path.join(verif, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not")
