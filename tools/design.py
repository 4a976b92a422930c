"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m.get("caught_by", m["property"]), m["needs"].replace("|", "/")))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
a, b = s.index("<!-- table -->"), s.index("<!-- end of table -->")
s = s[:a] + "<!-- table -->\n| bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n" + s[b:]
open(p, "w").write(s)
