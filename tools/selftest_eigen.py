#!/usr/bin/env python3
"""Self-test of lib/absint.py, not part of any check: every spelling in units/selftest_eigen.cpp is compiled and run with the real Eigen and
interpreted; a result the interpreter gives must be the real one (not deciding is allowed)."""
import os, random, re, subprocess, sys, tempfile
from fractions import Fraction as F
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(H, "../lib")]
import alg, prog
from absint import *
from fvmodel import eigen_types

SRC = os.path.normpath(os.path.join(H, "../units/selftest_eigen.cpp"))
a = [2, -1, 0.5, 1, 3, -0.25, -0.5, 0.75, 4]
b = [1, 0.5, -2, 3, -1, 0.25, 0.125, 2, -0.5]
u, v, s = [1, -2, 0.5], [0.25, 3, -1], 1.5
ks = sorted(int(x) for x in re.findall(r"^    T\((\d+)\)", open(SRC).read(), re.M))
lst = lambda x: ",".join(map(str, x))
with tempfile.TemporaryDirectory() as d:
    open(d + "/m.cpp", "w").write('#include "%s"\n#include <cstdio>\nusing namespace SelfTest;\nint main(){M3 a,b; a<<%s; b<<%s; V3 u{%s},v{%s};\n' % (SRC, lst(a), lst(b), lst(u), lst(v)) +
        "".join('{M3 o=M3::Zero(); t%d(a,b,u,v,%s,o); printf("%d"); for(int i=0;i<9;i++)printf(" %%.17g",o(i/3,i%%3)); puts("");}\n' % (k, s, k) for k in ks) + "}\n")
    fl = [x for x in prog.FLAGS if not x.startswith("-resource-dir") and x != "-fopenmp" and "stubs" not in x]
    subprocess.run(["g++", *fl, d + "/m.cpp", "-o", d + "/m", "/repo/_build/src/DNDS/libdnds.a", "-lfmt", "-lmpi"], check=True)
    out = subprocess.run([d + "/m"], capture_output=True, text=True, check=True).stdout
ref = {int(l.split()[0]): [float(x) for x in l.split()[1:]] for l in out.splitlines()}
P = eigen_types(prog.Program([SRC]))
wrong, und = [], []
for k in ks:
    f = [x for x in P.fns.values() if x.q == "SelfTest::t%d" % k and not x.dep][0]
    A = Atoms()
    I = Interp(P, A)
    M = lambda l, r, c: I.store(Mat(r, c, [A.const(F(x)) for x in l]))
    o = M([0] * 9, 3, 3)
    try:
        I.call(f, [M(a, 3, 3), M(b, 3, 3), M(u, 3, 1), M(v, 3, 1), I.store(A.const(F(s))), o])
        m = I.mat(o)
        if any(not isinstance(x, Q) for x in m.v):
            und.append(k)
            continue
        g = [float(x.constant()) if x.isconst() else alg.Valuation(A, random.Random(1), None).scaled(x)[0] for x in m.v]
        if any(abs(x - y) > 1e-9 * (1 + abs(y)) for x, y in zip(g, ref[k])):
            wrong.append((k, g, ref[k]))
    except Undecided:
        und.append(k)
    except KeyError as e:      # a function the evaluator of terms does not know
        und.append(k)
print("%d spellings, %d interpreted, not decided: %s" % (len(ks), len(ks) - len(und) - len(wrong), und))
for w in wrong:
    print("WRONG", *w)
sys.exit(bool(wrong))
