#!/usr/bin/env python3
"""tools/mc.py MODULE [NAME=VALUE...]: one TLC run with constants overridden"""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
s = tempfile.mkdtemp()
try:
    c = {}
    for a in sys.argv[2:]:
        k, v = a.split("=", 1)
        c[k] = ("<- " + v[1:]) if v.startswith("@") else "= " + v
    r = vlib.tlc(sys.argv[1], sys.argv[1] + ".cfg", s, workers=8, timeout=1500, consts=c, mem="8g")
    print("ok" if r.ok else r.out[-2500:])
    print(r.violated, r.distinct, r.generated, r.depth, round(r.wall, 1))
finally:
    shutil.rmtree(s)
