"""What the evaluator checks (P14, P15) share: boundary handler, comparison of recorded values with expected ones."""
from prog import *
from fvmodel import *
from fractions import Fraction as F

EV = "DNDS::Euler::EulerEvaluator"
DIMS = {"NS": (3, 2, 5), "NS_2D": (2, 2, 4), "NS_3D": (3, 3, 5), "NS_SA": (3, 2, 6), "NS_SA_3D": (3, 3, 6), "NS_2EQ": (3, 2, 7), "NS_2EQ_3D": (3, 3, 7)}
BCZ = 21


class BCs(Obj):
    def __init__(s, S):
        s.S = S

    def meth(s, I, fr, n, nm, args):
        a = [I.ev(fr, x) for x in args]
        if nm == "GetTypeFromID":
            z = I.int(a[0])
            return I.A.const(s.S.bctype if z == BCZ else s.S.bcenum["BCUnknown"])
        if nm == "GetFlagFromIDSoft":
            z = I.int(a[0])
            k = I.rv(a[1])
            if not isinstance(k, str):
                raise Undecided("boundary flag of another name: %r" % (k,))
            if k == "integrationOpt":
                return I.A.const(s.S.intopt if z == BCZ else 0)
            return I.A.const(0)
        if nm == "size":
            return I.A.const(BCZ + 1)
        return NotImplemented



def same_q(x, y):
    return isinstance(x, Q) and isinstance(y, Q) and (x - y).iszero()




class Cmp:
    def __init__(s, R, S, tag, where):
        s.R, s.S, s.tag, s.where = R, S, tag, where

    def __call__(s, key, got, want, text, where=None):
        flat = lambda v: [x for y in v for x in (y if isinstance(y, list) else [y])]
        got, want = flat(got), flat(want)
        if len(got) != len(want):
            raise Undecided("%s: %d values where %d are expected" % (text, len(got), len(want)))
        for i, (a, b) in enumerate(zip(got, want)):
            s.R.count("identities")
            if not isinstance(a, Q) and not re.search(r"uninitialised|unset|read before it was computed", str(a)):
                raise Undecided("%s: value %d is not expressible (%s)" % (text, i, a))
            if not isinstance(a, Q):
                s.R.viol(key, where or s.where, "%s: value %d is never computed (%s) [%s]" % (text, i, a, s.tag))
                return
            x = a - b
            if x.iszero():
                continue
            d = differs(x) and differs2(a, b)
            if d is None:
                raise Undecided("%s [%d]: not evaluable" % (text, i))
            if d:
                s.R.viol(key, where or s.where, "%s (component %d) [%s]" % (text, i, s.tag))
                return
            s.R.count("equal_up_to_rounding_or_cases")
