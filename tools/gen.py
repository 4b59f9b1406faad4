#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py and checks.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from props import PROPS
from checks import CHECKS, NOT_APPLICABLE
ids = [p["id"] for p in PROPS]
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "STRPP_VERIF", "enable": "no hooks are needed: every check drives the public API", "source_commits": []},
     "checks": [], "not_applicable": [], "notes": "check.py ID builds harness/cXX.cpp with /repo's sources and runs it; see DESIGN.md. KNOWN_FINDINGS.txt lists recorded defects and repairs."}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
