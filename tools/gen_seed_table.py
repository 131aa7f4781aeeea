#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
matrix = json.load(open(sys.argv[1])) if len(sys.argv) > 1 else {}
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for i in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{i}/meta.json"))
    by = [m["property"]] + [p for p, r in sorted(matrix.get(i, {}).items()) if r == 1 and p != m["property"]]
    rows.append(f"| {i} | {', '.join(by)} | {m['needs']} |")
p = here + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda x: x.group(1) + "\n".join(rows) + "\n" + x.group(2), s, flags=re.S)
open(p, "w").write(s)
