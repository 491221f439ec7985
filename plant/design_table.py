#!/usr/bin/env python3
"""Puts the table of planted changes into DESIGN.md (after the line that starts with 'Planted changes and')."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["Planted changes and the checks that catch them (quick tier, VERIF_SEED=1; the check of the property itself unless noted):", "", "| change | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    out.append("| %s | %s | %s |" % (f.split("/")[-2], d.get("caught", d["property"]), d["needs"].replace("|", "\\|")))
p = V + "/DESIGN.md"
s = open(p).read()
for m in ("@@TABLE@@", "Planted changes and the checks"):
    i = s.find(m)
    if i >= 0:
        s = s[:i]
open(p, "w").write(s + "\n".join(out) + "\n")
