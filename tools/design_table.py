#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
rows = ["| planted bug | property, caught by its check | needs |", "|---|---|---|"]
for d in sorted(glob.glob("/verif/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s: %s | %s | %s |" % (os.path.basename(d), m["what_it_breaks"].replace("|", "/"), m["property"], m["needs"].replace("|", "/")))
text = open("/verif/DESIGN.md").read()
table = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->"
if "@TABLE@" in text:
    text = text.replace("@TABLE@", table)
else:
    text = re.sub(r"<!-- table -->.*?<!-- end -->", lambda _: table, text, flags=re.S)
open("/verif/DESIGN.md", "w").write(text)
