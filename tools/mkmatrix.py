"""Rewrites the catch matrix at the end of DESIGN.md from seeded/*/meta.json and a results
file (lines: "<seed> <property> CAUGHT|MISSED ...").   mkmatrix.py RESULTS"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]):
    w = l.split()
    if len(w) > 2:
        res[w[0]] = "caught" if w[2] == "CAUGHT" else "MISSED"
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
head = "| change | check | breaks | quick |\n|---|---|---|---|\n"
s = s[:s.index(head)] + head
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    s += f"| {d} | {m['property']} | {m['what_it_breaks']} | {res.get(d, '?')} |\n"
open(p, "w").write(s)
