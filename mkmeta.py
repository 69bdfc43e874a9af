"""Writes properties.jsonl and MANIFEST.json from meta.py (run by hand after editing meta.py)."""
import json
from meta import PROPS, NOT_APPLICABLE

with open("properties.jsonl", "w") as f:
    for p in PROPS:
        q = {"over": p.get("over", ["inputs", "configurations"]), "text": p["quant"]}
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": q,
             "why_tests_cant": p["why"],
             "anchors": {"files": sorted({m[1].split(":")[0] for m in p["mech"]}),
                         "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                         "observe_at": p.get("observe", []), "hook_needed": None}}
        assert len(d["title"]) <= 80, d["title"]
        assert d["statement"].count(". ") <= 2, (d["id"], d["statement"].count(". "))
        f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh",
       "checks": [{"property": p["id"], "quick_cmd": "./run.sh %s" % p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough ./run.sh %s" % p["id"],
                   "technique": "property-based testing (Hypothesis): " + p["tech"],
                   "level": "exploration", "level_note": p["note"]} for p in PROPS if not p.get("na")],
       "not_applicable": [{"property": a, "reason": b} for a, b in NOT_APPLICABLE],
       "notes": "Checks import emc2 from /repo's working tree; no hooks. See DESIGN.md."}
json.dump(man, open("MANIFEST.json", "w"), indent=1)
print(len(PROPS), "properties")
