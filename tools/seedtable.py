#!/usr/bin/env python3
"""Rewrites the planted-changes table of DESIGN.md from seeded/*/meta.json (all rows were confirmed with tools/seedtest.py)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted change | needs | breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); c = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s quick |" % (os.path.basename(os.path.dirname(f)), c(m["needs"]), c(m["what_it_breaks"]), m.get("caught_by", m["property"])))
p = V + "/DESIGN.md"; s = open(p).read()
H = "## Planted changes and which checks catch them\n"
body = H + "\nMade with scratch copies, run with `tools/seedtest.py` (patch, build, tests, demo on both trees, check on the patched tree).\n\n" + "\n".join(rows) + "\n\n"
if H in s:
    a, b = s.split(H); b = b[b.index("\n## ") + 1:] if "\n## " in b else ""
    s = a + body + b
else: s = s.replace("## Defects found and repaired", body + "## Defects found and repaired")
open(p, "w").write(s)
