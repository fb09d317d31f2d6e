#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/plant/caught.json."""
import glob, json, os, re
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
caught = json.load(open(os.path.join(HERE, "tools/plant/caught.json")))
rows = []
for f in glob.glob(os.path.join(HERE, "seeded/*/meta.json")):
    m, i = json.load(open(f)), f.split("/")[-2]
    c = caught.get(i, "not tried")
    k = re.search(r"case (\d+)", c)
    rows.append("| %s | `%s` | %s | %s |" % (m["property"], i, " ".join(m["needs"].split()).replace("|", "\\|"), "case " + k.group(1) if k else c))
table = "| property | planted bug | needs | caught by the property's own quick check at |\n|---|---|---|---|\n" + "\n".join(sorted(rows)) + "\n"
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- planted -->\n).*(<!-- /planted -->)", lambda m: m.group(1) + table + m.group(2), s, flags=re.S)
open(p, "w").write(s)
