#!/usr/bin/env python3
"""mktable.py [CATCHLOG...]: collects the output of plant.py --check into catches.json and writes the table of DESIGN.md section 5"""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CJ = os.path.join(ROOT, "tools", "catches.json")
c = json.load(open(CJ)) if os.path.exists(CJ) else {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) \| (C\d+) rc=(\d+) (\w+) (.*)", l)
        if m:
            cl = re.search(r"violated clauses: \{(.*?)\}", m.group(5))
            c[m.group(1)] = dict(prop=m.group(2), res=m.group(4), clauses=sorted(set(re.findall(r"'([A-Z]\d*\.\w+)'", cl.group(1)))) if cl else [])
json.dump(c, open(CJ, "w"), indent=0, sort_keys=True)
rows = ["| planted bug | needs | caught by |", "| --- | --- | --- |"]
for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))
    k = c.get(b)
    by = "not run since planted" if not k else ", ".join(k["clauses"]) or "process outcome" if k["res"] == "CAUGHT" else "**missed**"
    rows.append(f"| {b} | {m['needs'].replace('|', '/')} | {by} |")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
new = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->"
s = s.replace("@TABLE@", new) if "@TABLE@" in s else re.sub(r"<!-- table -->.*?<!-- end -->", lambda _: new, s, flags=re.S)
open(p, "w").write(s)
print(len(rows) - 2, "bugs", sum(1 for k in c.values() if k["res"] == "CAUGHT"), "caught", [b for b, k in c.items() if k["res"] != "CAUGHT"])
