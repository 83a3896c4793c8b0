#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md (from seeded/*/meta.json and, if given, the output of catch_own.sh)."""
import json, os, re, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
caught = {}
if len(sys.argv) > 1:
    for l in open(sys.argv[1]):
        m = re.match(r"(caught|missed)\s+(\S+)\s+own (\S+) by (.*)", l, re.I)
        if m: caught[m.group(2)] = m.group(4).split() if m.group(1) == "caught" else []
rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    by = caught.get(d)
    rows.append(f"| {d} | {m['what_it_breaks']} | {', '.join(by) if by else (m['property'] if by is None else 'not caught')} |")
p = os.path.join(V, "DESIGN.md"); t = open(p).read()
t = t[:t.index("<!-- seeds -->")] + "<!-- seeds -->\n| change | what it breaks | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, "w").write(t)
