#!/usr/bin/env python3
"""tools/judge.py TRACESPEC FILE: validate one recorded trace (debugging)"""
import sys, os, tempfile, shutil, collections, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
s = tempfile.mkdtemp()
try:
    n, fails, r = vlib.judge(sys.argv[1], sys.argv[2], s)
finally:
    shutil.rmtree(s)
c = collections.Counter(x for f in fails.values() for x in f)
print(n, "lines", round(r.wall, 1), "s", dict(c))
lines = open(sys.argv[2]).readlines()
for i in list(fails)[:int(sys.argv[3]) if len(sys.argv) > 3 else 3]:
    print(i, fails[i], lines[i - 1][:500])
