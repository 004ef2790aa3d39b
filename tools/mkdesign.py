#!/usr/bin/env python3
"""Refreshes the tables of DESIGN.md: repaired defects and planted bugs (results kept in tools/caught.txt)."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fix, order = {}, []
for l in open(os.path.join(HERE, "known_findings.txt")):
    m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", l)
    if m:
        k = m[2]
        if k not in fix:
            fix[k] = [[], m[3]]
            order.append(k)
        fix[k][0].append(m[1])
ft = "| commit | property | what failed |\n|---|---|---|\n" + "".join(f"| {k} | {', '.join(fix[k][0])} | {fix[k][1]} |\n" for k in order)
caught = {}
p = os.path.join(HERE, "tools", "caught.txt")
if os.path.exists(p):
    for l in open(p):
        w = l.rstrip("\n").split(" ", 1)
        if len(w) == 2:
            caught[w[0]] = w[1]
st = "| bug | property | what it breaks | result |\n|---|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    st += f"| {d} | {m['property']} | {m['what_it_breaks']} | {caught.get(d, 'not yet run')} |\n"
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
for tag, t in (("FIX", ft), ("SEED", st)):
    s = re.sub(rf"<!-- {tag} -->.*?<!-- /{tag} -->", lambda _: f"<!-- {tag} -->\n{t}<!-- /{tag} -->", s, flags=re.S)
open(p, "w").write(s)
