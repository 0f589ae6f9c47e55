#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
import json, glob, os
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(v + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {d.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
p = v + "/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(p, "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:])
