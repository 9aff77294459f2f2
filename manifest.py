#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
try:
    from checks import NOT_APPLICABLE as NA
except ImportError:
    pass
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "GKC_VERIF_SMALL", "enable": "-DGKC_VERIF_SMALL on every gkc source file (build.py)", "source_commits": ["68d878a", "92670b2"]},
     "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
