"""Evaluator object for the pointwise checks (P18, P19): formal states, boundary handler, frame."""
from prog import *
from fvmodel import *
from evcommon import *
from fractions import Fraction as F

FACES = [(0, 1, 0), (0, None, BCZ), (1, None, 3)]


class BV(Obj):
    """boundary handler: one zone with formal values"""

    def __init__(s, S):
        s.S = S

    def meth(s, I, fr, n, nm, args):
        S = s.S
        a = [I.ev(fr, x) for x in args]
        if nm == "GetTypeFromID":
            z = I.int(a[0])
            return I.A.const(S.bctype if z == BCZ else S.bcenum["BCSpecial"])
        if nm in ("GetFlagFromIDSoft", "GetFlagFromID"):
            k = I.rv(a[1])
            if not isinstance(k, str):
                raise Undecided("boundary flag of another name: %r" % (k,))
            return I.A.const(S.flags.get(k, 0) if I.int(a[0]) == BCZ else 0)
        if nm == "GetValueFromID":
            return I.store(Mat(len(S.bval), 1, list(S.bval)))
        return NotImplemented


class Table(Obj):
    """recorder per boundary zone"""

    def __init__(s, has, val):
        s.has, s.val = has, val

    def meth(s, I, fr, n, nm, args):
        for x in args:
            I.ev(fr, x)
        if nm in ("count", "contains"):
            return I.A.const(int(s.has))
        if nm in ("at", "operator[]"):
            if not s.has:
                raise I.broken("a recorder is read that is not there")
            return s.val
        return NotImplemented


class Profile(Obj):
    def __init__(s, S):
        s.S = S

    def meth(s, I, fr, n, nm, args):
        a = [I.ev(fr, x) for x in args]
        if nm == "GetPlain":
            return I.store(Mat(s.S.nv, 1, [I.A.app("@prof%d" % k, [I.q(a[0])]) for k in range(s.S.nv)]))
        return NotImplemented


class CL(Obj):
    def __init__(s, S):
        s.S = S

    def meth(s, I, fr, n, nm, args):
        if nm == "GetAOARotation":
            return I.store(Mat(3, 3, s.S.aoa))
        if nm in ("operator bool", "operator conv"):
            return True
        if nm in ("operator->", "get", "operator*"):
            return s
        return NotImplemented


class Sim(Obj):
    def __init__(S, P, model, rot=False, cl=False, rans=0, flags=None, iG=0):
        S.P, S.model = P, model
        S.dim, S.gdim, S.nv = dim, gdim, nv = DIMS[model]
        S.M = M = Model(P, dim, gdim, nv, FACES, 2, 2, len(FACES))
        S.I, S.A = I, A = M.I, M.A
        S.rot, S.cl = rot, cl
        S.bcenum = dict(P.enums["DNDS::Euler::EulerBCType"]["c"])
        S.ransenum = dict(P.enums["DNDS::Euler::RANSModel"]["c"])
        S.flags = flags or {}
        S.g1 = A.var("g1", positive=True)
        S.gamma = S.g1 + A.const(1)
        S.Cp, S.Rg = A.var("Cp", positive=True), A.var("Rgas", positive=True)
        S.t = A.var("t")
        sv = {"idealGasProperty.gamma": S.gamma, "idealGasProperty.muGas": A.var("muGas", positive=True), "idealGasProperty.CpGas": S.Cp,
              "idealGasProperty.Rgas": S.Rg, "ransModel": A.const(rans)}
        S.w, S.rc = M.vec("om", 3), M.vec("rc", 3)
        if rot:
            sv.update({"frameConstRotation.enabled": A.const(1), "frameConstRotation.center": Mat(3, 1, S.rc), "frameConstRotation.vOmega()": Mat(3, 1, S.w),
                       "frameConstRotation.rVec()": Mat(3, 1, M.vec("rv", 3))})
        else:
            sv["frameConstRotation.rVec()"] = Mat(3, 1, M.vec("rv", 3))
        S.unit_normal()
        S.far0 = S.prim("F0")
        sv["farFieldStaticValue"] = Mat(nv, 1, S.cons(S.far0))
        S.aoa = M.rot[1]
        S.farv = S.prim("F")
        S.bval = S.cons(S.farv)
        S.f = {"mesh": M.mesh, "vfv": M.vfv, "pBCHandler": BV(S), "settings": Settings(sv), "nVars": I.store(A.const(nv)),
               "pCLDriver": CL(S) if cl else Ptr_null(),
               "dWall": Arr("dWall", lambda I, c: Mat(2, 1, [A.var("dw%d_%d" % (c, k), positive=True) for k in range(2)]), 2)}
        S.anch = None
        I.hooks["DNDS::Geom::RotateAxis"] = S.h_rot

    def unit_normal(S):
        A, d, gd = S.A, S.dim, S.gdim
        if gd == 2:
            t = A.var("tt")
            q = A.const(1) + t * t
            n = [(A.const(1) - t * t) / q, A.const(2) * t / q]
            S.tang = [[-n[1], n[0]]]
        else:
            s, t = A.var("ss"), A.var("tt")
            q = A.const(1) + s * s + t * t
            n = [A.const(2) * s / q, A.const(2) * t / q, (s * s + t * t - A.const(1)) / q]
            b = [A.const(1), A.const(2), A.const(3)]
            cr = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
            S.tang = [cr(n, b), cr(n, cr(n, b))]
        z = [A.const(0)] * (d - gd)
        S.n = n + z
        S.tang = [x + z for x in S.tang]
        if d > gd:
            S.tang.append([A.const(0)] * gd + [A.const(1)])

    def h_rot(S, I, fr, n, a):
        v = col(I, a[0])
        return I.store(Mat(3, 3, S.Rax(v)))

    def Rax(S, v):
        return [S.A.app("@Rax%d" % k, list(v)) for k in range(9)]

    def fld(S, I, fr, n):
        if n["n"] in S.f:
            return S.f[n["n"]]
        return Obj.fld(S, I, fr, n)

    def meth(S, I, fr, n, nm, args):
        if nm == "muEff":
            a = [I.ev(fr, x) for x in args]
            return S.muEff(col(I, a[0]), I.q(a[1]))
        return NotImplemented

    def muEff(S, U, T):
        return S.A.app("@mu", list(U) + [T], True)

    # ------------------------------------------------------------ states: primitive (rho, v.., p, passive..)
    def at(S, f, iG):
        """the point: a quadrature point or the centre of the face, or a point given by the caller"""
        S.x = S.M.fpt(f, iG) if iG >= -1 else S.M.pt("x")

    def prim(S, tag):
        A = S.A
        return [A.var("rho" + tag, positive=True)] + [A.var("v%s_%d" % (tag, k)) for k in range(S.dim)] + [A.var("p" + tag, positive=True)] + \
               [A.var("y%s_%d" % (tag, k)) for k in range(S.nv - S.dim - 2)]

    def cons(S, q):
        d = S.dim
        v2 = sum((x * x for x in q[1:d + 1]), S.A.const(0))
        return [q[0]] + [q[0] * x for x in q[1:d + 1]] + [q[d + 1] / S.g1 + q[0] * v2 / 2] + [q[0] * x for x in q[d + 2:]]

    def inner(S, regime):
        """interior state whose normal velocity, relative to the face and to the sound speed, lies in one of the four intervals"""
        A, d = S.A, S.dim
        c = A.var("c", positive=True)
        x, y = A.var("mx", positive=True), A.var("my", positive=True)
        wn = {"out+": c + x, "out": c * x / (x + y), "in": -(c * x / (x + y)), "in+": -(c + x)}[regime]
        v = [wn * n for n in S.n]
        for k, t in enumerate(S.tang):
            s = A.var("vt%d" % k)
            v = [a + s * b for a, b in zip(v, t)]
        rho = A.var("rho", positive=True)
        return S.shift([rho] + v + [rho * c * c / S.gamma] + [A.var("y_%d" % k) for k in range(S.nv - d - 2)], 1)

    def shift(S, q, sgn):
        """add (or take off) the velocity of the rotating frame at the point; states carry absolute velocities"""
        if not S.rot:
            return list(q)
        r = [a - b for a, b in zip(S.x, S.rc)]
        w = S.w
        k = [w[1] * r[2] - w[2] * r[1], w[2] * r[0] - w[0] * r[2], w[0] * r[1] - w[1] * r[0]][:S.dim]
        return [q[0]] + [a + sgn * b for a, b in zip(q[1:S.dim + 1], k)] + list(q[S.dim + 1:])

    def turn(S, q, m):
        d = S.dim
        v = q[1:d + 1]
        return [q[0]] + [sum((m[i * 3 + j] * v[j] for j in range(d)), S.A.const(0)) for i in range(d)] + list(q[d + 1:])

    def call(S, UL, UM, btype, iG=0, fixUL=False):
        I, A, M = S.I, S.A, S.M
        fn = [f for f in S.P.by_q.get(EV + "::generateBoundaryValue", []) if not f.dep and f.body]
        if not fn:
            raise AnalysisError("EulerEvaluator::generateBoundaryValue is not there any more")
        S.fn = fn[0]
        v = lambda x: I.store(Mat(len(x), 1, list(x)))
        d = S.dim
        nb = I.store(Mat(d, d, M.vec("nb", d * d)))
        ul = v(UL)
        r = I.call(fn[0], [ul, v(UM), A.const(0 if btype == BCZ else 1), A.const(1 if btype == BCZ else 2), A.const(iG), v(S.n), nb, v(S.x), S.t, A.const(btype), fixUL, A.const(0)], this=S)
        return col(I, r), col(I, ul)


def Ptr_null():
    return Null()


class Null(Obj):
    def truth(s):
        return False

    def meth(s, I, fr, n, nm, args):
        if nm in ("operator bool", "operator conv"):
            return False
        raise I.broken("an empty pointer is followed (%s)" % nm)


def opt(kw):
    return ", ".join("%s=%s" % (k, v) for k, v in sorted(kw.items()) if v)


def tag(m, bc, kw, regime=""):
    return ", ".join(x for x in (m, bc, regime, opt(kw)) if x)
