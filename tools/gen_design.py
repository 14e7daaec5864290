#!/usr/bin/env python3
"""DESIGN.md = tools/DESIGN.in.md + per-property notes + findings + planted bugs table."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H); sys.path.insert(0, os.path.join(H, "tools"))
import checks_config as cc
from design_notes import NOTES
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
out = []
for p in props:
    i = p["id"]; n = NOTES.get(i)
    out.append("### %s %s\n" % (i, p["title"]))
    if i in cc.CHECKS:
        c = cc.CHECKS[i]
        if n: out.append(n.strip() + "\n")
        out.append("Case rule: %s.\n\nBounds: %s. Floors: %s.\n" % (c["rule"].rstrip("."), "; ".join(c.get("assumptions", [])) or "none beyond the generators", c.get("floors", {})))
    else:
        out.append("Not claimed: %s\n" % cc.NOT_APPLICABLE.get(i, "check under construction"))
kf = json.load(open(os.path.join(H, "known_findings.json")))
f = ["Repaired:", ""] + ["- " + x[len("fixed: "):] for x in kf["fixed"]] + ["", "Recorded, not repaired:", ""] + (["- %s (%s): %s" % (k["id"], k["property"], k["what"]) for k in kf["known"]] or ["- none"])
b = ["| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
sd = os.path.join(H, "seeded")
caught = json.load(open(os.path.join(H, "tools", "caught.json"))) if os.path.exists(os.path.join(H, "tools", "caught.json")) else {}
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    b.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], caught.get(d, "?")))
s = open(os.path.join(H, "tools", "DESIGN.in.md")).read()
s = s.replace("@@PROPS@@", "\n".join(out)).replace("@@FINDINGS@@", "\n".join(f)).replace("@@BUGS@@", "\n".join(b)).replace("See `DESIGN_PROPERTIES` below; each entry", "Each entry")
open(os.path.join(H, "DESIGN.md"), "w").write(s)
