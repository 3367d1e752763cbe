#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
import json, glob, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property, whose check catches it | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f)); rows.append("| %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], m["what_it_breaks"], m["needs"]))
p = root + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
