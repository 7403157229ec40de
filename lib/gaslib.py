"""Ideal-gas states and identity checks shared by the gas analyses."""
from prog import *
from refelem import *
from alg import differs

GAS = "DNDS::Euler::Gas::"


class G(Ref):
    def f(self, nm, pat=None):
        l = [f for f in self.P.by_q.get(GAS + nm, []) if not f.dep and f.body]
        if pat:
            l = [f for f in l if re.search(pat, f.key)]
        if not l:
            raise AnalysisError("function %s is not there any more" % nm)
        return l[0]


def eqs(R, X, f, key, got, want, text):
    got = [got] if isinstance(got, Q) else list(got)
    want = [want] if isinstance(want, Q) else list(want)
    if len(got) != len(want):
        raise Undecided("%s: %d values for %d" % (f.q, len(got), len(want)))
    for i, (a, b) in enumerate(zip(got, want)):
        if not isinstance(a, Q):
            raise Undecided("%s [%d]: %s" % (f.q, i, a))
        R.count("identities")
        x = a - b
        if x.iszero():
            continue
        dv = differs(x)
        if dv is None:
            raise Undecided("%s [%d]: not evaluable" % (f.q, i))
        if dv:
            R.viol("%s|%d" % (key, i), X.where(f), text + " (component %d)" % i)
        else:
            R.count("equal_up_to_case_analysis")


class State:
    def __init__(s, A, d, tag="", g1=None):
        s.d, s.A = d, A
        s.rho = A.var("rho" + tag, positive=True)
        s.p = A.var("p" + tag, positive=True)
        s.v = [A.var("uvw"[i] + tag) for i in range(d)]
        s.g1 = g1 if g1 is not None else A.var("g1", positive=True)
        s.gamma = s.g1 + A.const(1)
        s.v2 = sum((x * x for x in s.v[1:]), s.v[0] * s.v[0])
        s.E = s.p / s.g1 + s.rho * s.v2 * A.const(F(1, 2))
        s.H = (s.E + s.p) / s.rho
        s.U = [s.rho] + [s.rho * x for x in s.v] + [s.E]
        s.a2 = s.gamma * s.p / s.rho

    def flux(s, n, vg):
        vn = dot(s.v, n)
        w = vn - dot(vg, n)
        return [s.rho * w] + [s.rho * s.v[i] * w + s.p * n[i] for i in range(s.d)] + [s.E * w + s.p * vn]


def dot(a, b):
    r = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]):
        r = r + x * y
    return r


def unit(A, d, tag=""):
    if d == 2:
        t = A.var("t" + tag)
        q = A.const(1) + t * t
        return [(A.const(1) - t * t) / q, A.const(2) * t / q]
    s, t = A.var("s" + tag), A.var("t" + tag)
    q = A.const(1) + s * s + t * t
    return [A.const(2) * s / q, A.const(2) * t / q, (s * s + t * t - A.const(1)) / q]


def jac(vals, xs):
    """Jacobian (rows) of vals by the variables xs"""
    return [[v.diff(x) for x in xs] for v in vals]


def vec(I, v):
    return I.store(Mat(len(v), 1, list(v)))


def out(I, n):
    return I.store(Mat(n, 1, [I.A.var("junk%d" % k) for k in range(n)]))
