#!/usr/bin/env python3
"""Write MANIFEST.json from checks_config.py and properties.jsonl."""
import json, os, subprocess, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
import checks_config as cc
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in cc.CHECKS:
        c = cc.CHECKS[i]
        modes = sorted({b.get("mode", "asan") for b in c["bins"]})
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": c.get("technique", "runtime monitoring of the real library under generated workloads: " + " / ".join(cc.MODES[m]["what"] for m in modes) + ", plus an online oracle (independent model / invariant monitor) on every observed result"),
            "level": "exploration", "level_note": c.get("note", c["rule"])})
    else:
        na.append({"property": i, "reason": cc.NOT_APPLICABLE.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "GBS_VERIF", "enable": "no hook is needed: every monitored quantity is observable through the public headers, so no guarded code was added to /repo", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "na")
