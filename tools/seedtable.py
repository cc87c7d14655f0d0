#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m["property"], m["needs"].replace("|", "/")))
d = open(V + "/DESIGN.md").read()
d = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
