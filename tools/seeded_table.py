#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (all confirmed with mkseed.py)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m.get("caught_by", m["property"]), m["needs"].replace("|", "/")))
d = open(root + "/DESIGN.md").read()
b, e = "<!-- seeded -->", "<!-- /seeded -->"
t = b + "\n" + "\n".join(rows) + "\n" + e
d = d.replace("SEEDED_TABLE", t) if "SEEDED_TABLE" in d else re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: t, d, flags=re.S)
open(root + "/DESIGN.md", "w").write(d)
