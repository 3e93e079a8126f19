"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (run by hand)."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "| property (= check that catches it) | planted bug | needs |"
rows = {}
for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m["needs"]))
out = [HEAD, "|---|---|---|"] + [f"| {p} | {n} | {w} |" for p in sorted(rows) for n, w in rows[p]]
t = open(ROOT + "/DESIGN.md").read()
open(ROOT + "/DESIGN.md", "w").write(t[:t.index(HEAD)] + "\n".join(out) + "\n")
