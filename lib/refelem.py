"""Independent description of the reference elements, and access to the repository's own functions by
abstract interpretation of their source (lib/absint.py)."""
from fractions import Fraction as F
from itertools import product
from math import factorial
from absint import *

SPACES = {"LineSpace": 1, "TriSpace": 2, "QuadSpace": 2, "TetSpace": 3, "HexSpace": 3, "PrismSpace": 3, "PyramidSpace": 3}


def line_int(k):
    return F(0) if k % 2 else F(2, k + 1)


def monomial_integral(sp, a, b, c):
    """exact integral of x^a y^b z^c over the reference domain"""
    if sp == "LineSpace":
        return line_int(a)
    if sp == "QuadSpace":
        return line_int(a) * line_int(b)
    if sp == "HexSpace":
        return line_int(a) * line_int(b) * line_int(c)
    if sp == "TriSpace":
        return F(factorial(a) * factorial(b), factorial(a + b + 2))
    if sp == "TetSpace":
        return F(factorial(a) * factorial(b) * factorial(c), factorial(a + b + c + 3))
    if sp == "PrismSpace":
        return F(factorial(a) * factorial(b), factorial(a + b + 2)) * line_int(c)
    if sp == "PyramidSpace":
        # x, y in [-(1-z), 1-z], z in [0, 1]: line(a) line(b) int z^c (1-z)^(a+b+2)
        n = a + b + 2
        return line_int(a) * line_int(b) * F(factorial(c) * factorial(n), factorial(c + n + 1))
    raise KeyError(sp)


def inside(sp, x, y, z, tol):
    lo, hi = -1 - tol, 1 + tol
    t = -tol
    if sp == "LineSpace":
        return lo <= x <= hi
    if sp == "QuadSpace":
        return lo <= x <= hi and lo <= y <= hi
    if sp == "HexSpace":
        return all(lo <= v <= hi for v in (x, y, z))
    if sp == "TriSpace":
        return x >= t and y >= t and x + y <= hi
    if sp == "TetSpace":
        return x >= t and y >= t and z >= t and x + y + z <= hi
    if sp == "PrismSpace":
        return x >= t and y >= t and x + y <= hi and lo <= z <= hi
    if sp == "PyramidSpace":
        return z >= t and abs(x) <= hi - z and abs(y) <= hi - z
    raise KeyError(sp)


class Ref:
    """the repository's element functions, evaluated on abstract arguments"""

    def __init__(self, P):
        self.P = P
        self.E = dict(P.enums.get("DNDS::Geom::Elem::ElemType", {"c": []})["c"])
        self.S = dict(P.enums.get("DNDS::Geom::Elem::ParamSpace", {"c": []})["c"])
        self.elems = [n for n, v in sorted(self.E.items(), key=lambda x: x[1]) if n not in ("UnknownElem", "ElemType_NUM") and v]
        self.undecided = []

    def fn(self, q, pat=None, nth=0):
        l = [f for f in self.P.by_q.get("DNDS::Geom::" + q, []) if not f.dep]
        if pat:
            l = [f for f in l if re.search(pat, f.key)]
        if not l:
            raise AnalysisError("function %s is not there any more" % q)
        return l[nth]

    def where(self, f):
        return f.loc()
