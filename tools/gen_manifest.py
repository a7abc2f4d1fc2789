#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from lib/config.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "lib"))
import config
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --self-test",
     "hooks": {"guard": "ASLAM_CALIBRATION_VERIF", "enable": "no hook was needed: every monitor observes the public interface (the name is reserved)", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    if p in config.CHECKS:
        c = config.CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": c["technique"],
                            "level": "exploration", "level_note": c["level_note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": config.NOT_APPLICABLE.get(p, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
