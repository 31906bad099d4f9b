#!/usr/bin/env python3
"""The table of planted bugs of DESIGN.md, from seeded/*/meta.json and tools/seeded_results.txt (id, first, caught by)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(here + "/tools/seeded_results.txt"):
    f = l.rstrip("\n").split("\t")
    res[f[0]] = f[1:]
rows = ["| change | needs | first | caught by (quick) |", "|---|---|---|---|"]
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    first, by = (res.get(d) or ["?", "?"])[:2]
    rows.append(f"| {d}: {m['what_it_breaks']} | {m['needs']} | {first} | {by} |")
s = open(here + "/DESIGN.md").read()
a = s.index("<!-- table -->") + len("<!-- table -->")
open(here + "/DESIGN.md", "w").write(s[:a] + "\n" + "\n".join(rows) + "\n")
