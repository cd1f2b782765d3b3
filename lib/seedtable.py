#!/usr/bin/env python3
"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted change | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(f))
    c = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m.get("caught_by", m["property"]), c(m["what_it_breaks"]), c(m["needs"])))
d = open(R + "/DESIGN.md").read()
d = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda k: k.group(1) + "\n".join(rows) + "\n" + k.group(2), d, flags=re.S)
open(R + "/DESIGN.md", "w").write(d)
