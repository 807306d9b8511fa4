#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["needs"].replace("|", "\\|")))
name = root + "/DESIGN.md"
text = open(name).read()
text = re.sub(r"(<!-- table -->\n).*?(<!-- end -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], text, flags=re.S)
open(name, "w").write(text)
