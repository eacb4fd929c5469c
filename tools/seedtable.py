#!/usr/bin/env python3
"""Development aid: prints the table of planted bugs for DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for d in ("seeded", "seeded_templates"):
    for m in sorted(glob.glob("%s/%s/*/meta.json" % (V, d))):
        rows.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)) + ("*" if d != "seeded" else ""))
for p in sorted(rows):
    print("| %s | %s |" % (p, ", ".join(rows[p])))
