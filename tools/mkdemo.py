#!/usr/bin/env python3
"""mkdemo.py ID NP [key=value...]: write seeded/ID/demo.sh from the template"""
import sys, os
i, np = sys.argv[1], sys.argv[2]
kv = dict(a.split("=", 1) for a in sys.argv[3:])
libs = "$B/src/Geom/libgeom.a $B/src/DNDS/libdnds.a"
t = open(os.path.join(os.path.dirname(__file__), "demo_template.sh")).read()
for k, v in (("NP", np), ("LIBS", kv.get("libs", libs)), ("OPT", kv.get("opt", "-O0")), ("DEFS", kv.get("defs", "")), ("OMPT", kv.get("omp", "2"))):
    t = t.replace("@%s@" % k, v)
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
open(d + "/demo.sh", "w").write(t)
os.chmod(d + "/demo.sh", 0o755)
