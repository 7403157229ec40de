"""P14: the finite-volume residual."""
from prog import *
from fvmodel import *
from evcommon import *
from report import run_jobs
from fractions import Fraction as F

IGNORE_VIS, DONT_INT, DONT_BND, REC2, REC2_1ST = 1, 2, 4, 256, 512


class Recorder(Obj):
    size = None

    def __init__(s, S, z):
        s.S, s.z = S, z

    def meth(s, I, fr, n, nm, args):
        a = [I.ev(fr, x) for x in args]
        if nm == "Add":
            v = col(I, a[0])
            if s.size is not None and s.size != len(v):
                raise I.broken("%d values added to a boundary integration of %d" % (len(v), s.size))
            s.S.ints.append((s.z, "Add", v, I.q(a[1])))
        elif nm in ("Reset", "Reduce"):
            s.S.ints.append((s.z, nm))
        else:
            return NotImplemented
        return None


class BMap(Obj):
    """std::map of boundary integrations: already holding the boundary's recorder"""

    def __init__(s, S):
        s.S = S
        s.d = {}

    def get(s, k):
        return s.d.setdefault(k, Recorder(s.S, k))

    def meth(s, I, fr, n, nm, args):
        a = [I.ev(fr, x) for x in args]
        if nm == "count":
            return I.A.const(int(I.int(a[0]) in s.d))
        if nm in ("emplace", "insert", "try_emplace"):
            x = I.rv(a[0])
            k = I.int(x.e[0] if isinstance(x, Seq_) else a[0])
            v = s.get(k)
            if isinstance(x, Seq_) and len(x.e) == 2:
                y = I.rv(x.e[1])
                if isinstance(y, Rec) and "v" in y.f:
                    m = I.mat(I.rv(y.f["v"]))
                    v.size = m.r * m.c if isinstance(m, Mat) else None
            return None
        if nm == "at":
            k = I.int(a[0])
            if k not in s.d:
                raise I.broken("integration of boundary %d was never set up" % k)
            return s.get(k)
        return NotImplemented

    def idx(s, I, fr, n, args):
        return s.get(I.int(args[0]))

    def items(s, I):
        return [I.store(Seq_([I.A.const(k), v])) for k, v in sorted(s.d.items())]


class Jac(Obj):
    def __init__(s, S, block):
        s.S, s.block = S, block
        nv = S.nv
        s.cleared = False
        s.D = Arr("JSource", lambda I, c: Mat(nv, nv if block else 1, [I.A.const(0)] * (nv * (nv if block else 1))), S.M.ncell)

    def meth(s, I, fr, n, nm, args):
        if nm == "isBlock":
            return s.block
        if nm == "clearValues":
            s.cleared = True
            return None
        if nm in ("getBlock", "getDiag"):
            if (nm == "getBlock") != s.block:
                raise I.broken("%s of a Jacobian in the other mode" % nm)
            return I.rv(s.D.idx(I, fr, n, [I.ev(fr, args[0])]))
        return NotImplemented


class Sim(Obj):
    """one evaluation of the residual; also the evaluator object (this)"""

    def __init__(S, P, model, faces, flags=0, bctype="BCFar", intopt=0, opts=None, unlim=False, block=False, rot=False):
        S.P, S.model = P, model
        dim, gdim, nv = DIMS[model]
        S.dim, S.gdim, S.nv = dim, gdim, nv
        S.M = M = Model(P, dim, gdim, nv, faces, 2, 3, len(faces) - 1)
        S.I, S.A = M.I, M.A
        I, A = S.I, S.A
        S.flags, S.intopt, S.block = flags, intopt, block
        S.bcenum = dict(P.enums["DNDS::Euler::EulerBCType"]["c"])
        S.bcname = bctype
        S.bctype = S.bcenum[bctype]
        S.opts = dict(opts or {})
        S.ints, S.calls, S.grads2nd = [], {}, 0
        S.gamma = A.var("gamma", positive=True)
        S.t = A.var("t")
        nf, np = len(faces), 3
        sv = {"idealGasProperty.gamma": S.gamma, "idealGasProperty.Rgas": A.var("Rgas", positive=True),
              "idealGasProperty.muGas": A.var("muGas", positive=True), "rsType": A.const(3)}
        sv.update({k: (A.const(int(v)) if isinstance(v, (int, bool)) else v) for k, v in S.opts.items()})
        S.rot = rot
        if rot:
            S.rotw, S.rotc = M.vec("om", 3), M.vec("rc", 3)
            sv.update({"frameConstRotation.enabled": A.const(1), "frameConstRotation.center": Mat(3, 1, S.rotc), "frameConstRotation.vOmega()": Mat(3, 1, S.rotw)})
        S.set = Settings(sv)
        S.u = Arr("u", lambda I, c: M.col("u%d" % c, nv), np, nv)
        S.uRec = Arr("uRec", lambda I, c: Mat(M.nrec, nv, [A.var("r%d_%d_%d" % (c, k, j)) for k in range(M.nrec) for j in range(nv)]), np, M.nrec)
        S.uRecU = Arr("uRecUnlim", lambda I, c: Mat(M.nrec, nv, [A.var("s%d_%d_%d" % (c, k, j)) for k in range(M.nrec) for j in range(nv)]), np, M.nrec) if unlim else S.uRec
        S.unlim = unlim
        S.rhs = Arr("rhs", lambda I, c: M.col("rhs0_%d" % c, nv), np, nv)
        S.gl = Arr("uGradBuf", lambda I, c: Mat(gdim, nv, [Top("limited gradient read before it was computed")] * (gdim * nv)), np, gdim)
        S.gn = Arr("uGradBufNoLim", lambda I, c: Mat(gdim, nv, [Top("gradient read before it was computed")] * (gdim * nv)), np, gdim)
        S.alpha = Arr("cellRHSAlpha", lambda I, c: Mat(1, 1, [A.var("al%d" % c)]), np, 1)
        S.js = Jac(S, block)
        z = lambda n, r: I.store(Seq_([I.store(Mat(r, 1, [Top("unset")] * r)) for _ in range(n)]))
        zs = lambda n: I.store(Seq_([A.var("lam0_%d" % k) for k in range(n)]))
        S.f = {"mesh": M.mesh, "vfv": M.vfv, "pBCHandler": BCs(S), "settings": S.set, "nVars": I.store(A.const(nv)),
               "gradUFix": I.store(Seq_([Mat(dim, nv, [A.var("gf%d_%d" % (c, k)) for k in range(dim * nv)]) for c in range(2)])),
               "uGradBuf": S.gl, "uGradBufNoLim": S.gn, "fluxWallSum": I.store(Mat(nv, 1, [A.var("fws%d" % k) for k in range(nv)])),
               "fluxBnd": z(len(M.bnds), nv), "fluxBndForceT": z(len(M.bnds), dim), "nFaceReducedOrder": I.store(A.const(0)),
               "lambdaFace0": zs(nf), "lambdaFace123": zs(nf), "lambdaFace4": zs(nf), "bndIntegrations": BMap(S)}
        M.vfv.over["DoReconstruction2ndGrad"] = S.rec2
        I.hooks.update({
            "DNDS::Geom::NormBuildLocalBaseV": lambda I, fr, n, a: S.nb(col(I, a[0])),
            "DNDS::Euler::Gas::GradientCons2Prim_IdealGas": S.h_gcp,
            "DNDS::MPI::Allreduce": S.h_allreduce})

    def fld(S, I, fr, n):
        if n["n"] in S.f:
            return S.f[n["n"]]
        return Obj.fld(S, I, fr, n)

    # -------------------------------------------------- opaque parts
    def nb(S, v):
        return Mat(S.dim, S.dim, [S.A.app("@nb%d" % k, v[:S.dim]) for k in range(S.dim * S.dim)])

    def bv(S, UL, UM, c, f, g, n, p, fix, mode):
        A = S.A
        a = list(UL) + list(UM) + list(n) + [A.const(c), A.const(g)] + list(p[:S.gdim]) + [A.const(fix), A.const(mode), S.t]
        return [A.app("@bv%d_%d" % (f, k), a) for k in range(S.nv)]

    def src(S, U, G, p, c, g, mode):
        a = list(U) + [x for r in G for x in r] + list(p[:S.gdim]) + [S.A.const(g)]
        k = S.nv * S.nv if mode == 2 else S.nv
        return [S.A.app("@src%d_%d_%d" % (mode, c, i), a) for i in range(k)]

    def gcp(S, U, G):
        a = list(U) + [x for r in G for x in r] + [S.gamma]
        return [[S.A.app("@gcp%d_%d" % (i, j), a) for j in range(S.nv)] for i in range(S.dim)]

    def h_gcp(S, I, fr, n, a):
        d = tmpl_ints(I.P.info(fr.fn, n))
        if d and d[0] != S.dim:
            raise I.broken("GradientCons2Prim_IdealGas<%d> on a state of %d dimensions" % (d[0], S.dim))
        g = I.mat(a[1])
        G = [g.v[i * g.c:(i + 1) * g.c] for i in range(g.r)]
        if any(not isinstance(x, Q) for x in g.v):
            out = [Top("gradient")] * (S.dim * S.nv)
        elif all(x.iszero() for x in g.v):
            out = [S.A.const(0)] * (S.dim * S.nv)
        else:
            out = [x for r in S.gcp(col(I, a[0]), G) for x in r]
        I.assign(a[2], Mat(S.dim, S.nv, out))
        return None

    def h_allreduce(S, I, fr, n, a):
        s, d, k = I.rv(a[0]), I.rv(a[1]), I.int(a[2])
        for i in range(k):
            I.assign(d.e[d.o + i], I.q(s.e[s.o + i]))
        return None

    def rec2(S, I, fr, n, args):
        a = [I.ev(fr, x) for x in args]
        g = I.rv(a[0])
        if g is not S.gn or I.rv(a[1]) is not S.u:
            raise Undecided("second-order reconstruction of something else")
        for c in range(S.M.nproc):
            I.assign(g.at(I, c), Mat(S.gdim, S.nv, S.A2("gn%d" % c)))
        S.grads2nd += 1
        S.fb = a[2]
        return None

    def A2(S, nm):
        return [S.A.var("%s_%d_%d" % (nm, i, j)) for i in range(S.gdim) for j in range(S.nv)]

    def meth(S, I, fr, n, nm, args):
        if nm == "generateBoundaryValue":
            a = [I.ev(fr, x) for x in args]
            f, zone = I.int(a[3]), I.int(a[9])
            if zone != S.M.zone(f):
                raise I.broken("boundary value of face %d with the boundary id of another" % f)
            nn = col(I, a[5])
            nb = col(I, a[6])
            if any(not same_q(x, y) for x, y in zip(nb, S.nb(nn).v)):
                raise Undecided("boundary frame is not the normal's %s | %s" % (nb, S.nb(nn).v))
            if not (I.q(a[8]) - S.t).iszero():
                raise I.broken("boundary value at another time")
            r = S.bv(col(I, a[0]), col(I, a[1]), I.int(a[2]), f, I.int(a[4]), nn, col(I, a[7]), int(bool(I.truth(a[10]))), I.int(a[11]))
            return Mat(S.nv, 1, r)
        if nm == "fluxFace":
            a = [I.ev(fr, x) for x in args]
            f = I.int(a[17])
            ul = I.mat(a[0])
            k = ul.c
            S.calls.setdefault(f, []).append(dict(UL=I.mat(a[0]), UR=I.mat(a[1]), ULM=col(I, a[2]), URM=col(I, a[3]), G=I.mat(a[4]), GP=I.mat(a[5]), n=I.mat(a[6]),
                                                  vg=I.mat(a[7]), nC=col(I, a[8]), vgC=col(I, a[9]), zone=I.int(a[15]), rs=I.int(a[16]), ign=I.truth(a[18]), k=k, where=I.P.where(fr.fn, n)))
            for i, nmv in ((12, "l0"), (13, "l1"), (14, "l4")):
                I.assign(a[i], Mat(1, k, [S.A.var("%s_%d_%d" % (nmv, f, g)) for g in range(k)]))
            return Mat(S.nv, k, [S.F(f, i, g) for i in range(S.nv) for g in range(k)])
        if nm == "source":
            a = [I.ev(fr, x) for x in args]
            g = I.mat(a[1])
            mode = I.int(a[6])
            G = [g.v[i * g.c:(i + 1) * g.c] for i in range(g.r)]
            ar = (col(I, a[0]), G, col(I, a[2]), I.int(a[4]), I.int(a[5]))
            for x in ar[0] + g.v + ar[2]:
                if not isinstance(x, Q):
                    raise Undecided("source argument: %s" % (x,))
            if mode == 2:
                I.assign(a[3], Mat(S.nv, S.nv, S.src(*ar, 2)))
            return Mat(S.nv, 1, S.src(*ar, 0 if mode == 2 else mode))
        if nm == "LimiterUGrad":
            a = [I.rv(I.ev(fr, x)) for x in args]
            if a[0] is not S.u or a[1] is not S.gn or a[2] is not S.gl or not S.grads2nd:
                raise Undecided("limiter of something else")
            for c in range(S.M.nproc):
                I.assign(S.gl.at(I, c), Mat(S.gdim, S.nv, S.A2("gl%d" % c)))
            return None
        if nm == "CompressRecPart":
            a = [I.ev(fr, x) for x in args]
            ar = col(I, a[0]) + col(I, a[1])
            return Mat(S.nv, 1, [S.A.app("@cmp%d" % k, ar) for k in range(S.nv)])
        return NotImplemented

    def F(S, f, i, g):
        return S.A.var("F%d_%d_%d" % (f, i, g))

    def call_closure(S, fb, args):
        I = S.I
        v = I.rv(fb)
        return I.apply(None, None, v, [I.store(a) for a in args], None)

    def find(S):
        fn = [f for f in S.P.by_q.get(EV + "::EvaluateRHS", []) if not f.dep and f.body]
        if not fn:
            raise AnalysisError("EulerEvaluator::EvaluateRHS is not there any more")
        return fn[0]

    def run(S):
        S.fn = S.find()
        I = S.I
        S.I.call(S.fn, [S.rhs, S.js, S.u, S.uRecU, S.uRec, NoOp(), S.alpha, False, S.t, S.A.const(S.flags)], this=S)
        return S


FACES = [(0, 1, 0), (0, None, BCZ), (1, 0, -1), (0, 1, -5), (2, 1, 0), (1, 2, -2)]


class Expect:
    """what the residual is, written from the definition of the scheme, in the frames of the reference geometry"""

    def __init__(E, S):
        E.S, E.M, E.A = S, S.M, S.A
        fl = S.flags
        E.ign, E.rec2, E.first = bool(fl & IGNORE_VIS), bool(fl & REC2), bool(fl & REC2_1ST)
        A, M = E.A, E.M
        E.u = [M.vec("u%d" % c, S.nv) for c in range(M.nproc)]

    def rec(E, c, unlim):
        k = "s" if unlim and E.S.unlim else "r"
        return [[E.A.var("%s%d_%d_%d" % (k, c, i, j)) for j in range(E.S.nv)] for i in range(E.M.nrec)]

    def grad2(E, c, lim):
        return [[E.A.var("%s%d_%d_%d" % ("gl" if lim else "gn", c, i, j)) for j in range(E.S.nv)] for i in range(E.S.gdim)]

    def poly(E, c, p, diff, unlim):
        b, r = E.M.base(c, p, diff), E.rec(c, unlim)
        return [sum((b[k] * r[k][j] for k in range(E.M.nrec)), E.A.const(0)) for j in range(E.S.nv)]

    def state(E, f, side, g, unlim=False):
        M, S = E.M, E.S
        c = M.faces[f][side]
        if E.rec2 and not E.first:
            gr = E.grad2(c, True)
            d = [a - b for a, b in zip(M.pt_f2c(f, side, M.fpt(f, -1)), M.cpt(c, -1))]
            du = [sum((gr[i][j] * d[i] for i in range(S.gdim)), E.A.const(0)) for j in range(S.nv)]
        else:
            du = E.poly(c, M.pt_f2c(f, side, M.fpt(f, g)), 0, unlim and not E.rec2)
        return M.U_c2f(f, side, [a + b for a, b in zip(E.u[c], du)])

    def grad(E, f, side, g):
        M, S = E.M, E.S
        c = M.faces[f][side]
        z = [[E.A.const(0)] * S.nv for _ in range(S.dim - S.gdim)]
        if E.rec2 and not E.first:
            G = E.grad2(c, True)
        else:
            p = M.pt_f2c(f, side, M.fpt(f, g))
            G = [E.poly(c, p, 1 + i, True) for i in range(S.gdim)]
        return M.G_c2f(f, side, G + z)

    def prim(E, U):
        d = E.S.dim
        ke = sum((U[i] * U[i] for i in range(1, d + 1)), E.A.const(0)) / (2 * U[0])
        return [U[0]] + [U[i] / U[0] for i in range(1, d + 1)] + [(E.S.gamma - 1) * (U[d + 1] - ke)] + [x / U[0] for x in U[d + 2:]]

    def face(E, f, g):
        """arguments of the flux at quadrature point g (number -1 for the one-point rules)"""
        M, S, A = E.M, E.S, E.A
        n = M.norm(f, g)[:S.dim]
        l, r, z = M.faces[f]
        UL, ULu = E.state(f, 0, g), E.state(f, 0, g, True)
        ULM = M.U_c2f(f, 0, E.u[l])
        GL = E.grad(f, 0, g)
        bc = S.bcname if r is None else None
        if r is not None:
            UR, URu, GR = E.state(f, 1, g), E.state(f, 1, g, True), E.grad(f, 1, g)
            URM = M.U_c2f(f, 1, E.u[r])
            mv = qmax(M.vol(l), M.vol(r), "min")
            db = [a - b for a, b in zip(M.pt_c2f(f, 1, M.bary(r)), M.bary(l))]
            db = qsqrt(sum((x * x for x in db), A.const(0)))
        else:
            UR = S.bv(UL, ULM, l, f, g, n, M.fpt(f, g), 1, 0)
            URu, GR = UR, GL
            URM = S.bv(ULM, ULM, l, f, -1, M.norm(f, -1)[:S.dim], M.fpt(f, -1), 0, 0)
            mv = M.vol(l)
            db = [a - b for a, b in zip(M.fpt(f, -1), M.bary(l))]
            db = qsqrt(sum((x * x for x in db), A.const(0))) * 2
        idist = (1 / db) if E.first else M.area(f) / (2 * mv)
        if S.opts.get("noGRPOnWall") and bc == "BCWall" and not E.first:
            idist = A.const(0)
        if bc in ("BCWallInvis", "BCSym"):
            idist = A.const(0)
        jump = lambda a, b: [[idist * n[i] * (b[j] - a[j]) for j in range(S.nv)] for i in range(S.dim)]
        half = lambda a, b, J: [[(a[i][j] + b[i][j]) / 2 + J[i][j] for j in range(S.nv)] for i in range(S.dim)]
        G = half(GL, GR, jump(ULu, URu))
        UM = [(a + b) / 2 for a, b in zip(UL, UR)]
        if S.opts.get("usePrimGradInVisFlux"):
            PL, PR = E.prim(UL), E.prim(UR)
            GP = half(S.gcp(UL, GL), S.gcp(UR, GR), jump(PL, PR))
        else:
            GP = S.gcp(UM, G)
        zero = [[A.const(0)] * S.nv for _ in range(S.dim)]
        if bc in ("BCWallInvis", "BCOut", "BCFar", "BCSpecial", "BCSym"):
            G = GP = zero
        jmp = [[n[i] * (UR[j] - UL[j]) / 2 for j in range(S.nv)] for i in range(S.dim)]
        if bc == "BCWall" and S.opts.get("noRsOnWall"):
            ke = sum((UL[i] * UL[i] for i in range(1, S.dim + 1)), A.const(0)) / (2 * UL[0])
            UL = UR = [UL[0]] + [A.const(0)] * S.dim + [UL[S.dim + 1] - ke] + UL[S.dim + 2:]
        return dict(UL=UL, UR=UR, ULM=ULM, URM=URM, G=G, GP=GP, n=n, jmp=jmp)

    def vg(E, f, g):
        S = E.S
        if not S.rot:
            return [E.A.const(0)] * S.dim
        x = [a - b for a, b in zip(E.M.fpt(f, g), S.rotc)]
        w = S.rotw
        return [w[1] * x[2] - w[2] * x[1], w[2] * x[0] - w[0] * x[2], w[0] * x[1] - w[1] * x[0]][:S.dim]

    def fqs(E, f):
        """quadrature of the face: list of (point number in the call, quadrature number, weight times Jacobian)"""
        M = E.M
        if E.rec2:
            q = M.fq(f, True)
            return [(0, -1, M.area(f))]
        q = M.fq(f, False)
        return [(g, g, q.w(g) * M.fjac(f, g)) for g in range(q.npts)]

    def cqs(E, c):
        M = E.M
        if E.rec2:
            q = M.cq(c, True)
            return [(0, -1, M.vol(c))]
        q = M.cq(c, False)
        return [(g, g, q.w(g) * M.cjac(c, g)) for g in range(q.npts)]

    def flux(E, f):
        return [sum((E.S.F(f, i, k) * w for k, g, w in E.fqs(f)), E.A.const(0)) for i in range(E.S.nv)]

    def addto(E, a, b):
        return [x + y for x, y in zip(a, b)]

    def residual(E, c):
        """(rhs, source jacobian columns)"""
        S, M, A = E.S, E.M, E.A
        out = [A.const(0)] * S.nv
        for f, (l, r, z) in enumerate(M.faces):
            F = E.flux(f)
            if l == c:
                out = E.addto(out, M.U_f2c(f, 0, F))
            if r == c:
                out = E.addto(out, [-x for x in M.U_f2c(f, 1, F)])
        out = [x / M.vol(c) for x in out]
        if S.opts.get("ignoreSourceTerm"):
            return out, None
        k = S.nv * S.nv if S.block else S.nv
        src, jac = [A.const(0)] * S.nv, [A.const(0)] * k
        fix = E.gfix(c)
        for _, g, w in E.cqs(c):
            p = M.cpt(c, g)
            z = [[A.const(0)] * S.nv for _ in range(S.dim - S.gdim)]
            if E.rec2:
                G, U = E.grad2(c, False) + z, E.u[c]
            else:
                G = [E.poly(c, p, 1 + i, True) for i in range(S.gdim)] + z
                if S.opts.get("useSourceGradFixGG"):
                    G = [[a + b / M.vol(c) for a, b in zip(x, y)] for x, y in zip(G, fix)]
                if S.opts.get("ransSource2nd") and S.nv > S.dim + 2:
                    g2 = E.gg(c)
                    G = [x[:S.dim + 2] + y[S.dim + 2:] for x, y in zip(G, g2)]
                U = E.addto(E.u[c], E.poly(c, p, 0, False))
            src = E.addto(src, [x * w for x in S.src(U, G, p, c, g, 0)])
            jac = E.addto(jac, [x * w for x in S.src(U, G, p, c, g, 2 if S.block else 1)])
        al = A.var("al%d" % c) / M.vol(c)
        return E.addto(out, [x * al for x in src]), [x * al for x in jac]

    def gfix(E, c):
        """Green-Gauss correction of the gradient: sum over the faces of half the jump times the outward normal"""
        S, M, A = E.S, E.M, E.A
        out = [[A.const(0)] * S.nv for _ in range(S.dim)]
        for f, (l, r, z) in enumerate(M.faces):
            for side, cc in ((0, l), (1, r)):
                if cc != c:
                    continue
                t = [[A.const(0)] * S.nv for _ in range(S.dim)]
                for k, g, w in E.fqs(f):
                    J = E.face(f, g)["jmp"]
                    t = [[a + b * w for a, b in zip(x, y)] for x, y in zip(t, J)]
                t = M.G_c2f(f, side, t, rev=True)
                out = [[a + b for a, b in zip(x, y)] for x, y in zip(out, t)]
        return out

    def gg(E, c):
        """Green-Gauss gradient of the cell means"""
        S, M, A = E.S, E.M, E.A
        out = [[A.const(0)] * S.nv for _ in range(S.dim)]
        for f, (l, r, z) in enumerate(M.faces):
            for side, cc in ((0, l), (1, r)):
                if cc != c:
                    continue
                n = M.vec_f2c(f, side, M.norm(f, -1)[:S.dim])
                if side == 1:
                    n = [-x for x in n]
                o = (r, l)[side]
                if o is None:
                    uR = S.bv(E.u[c], E.u[c], c, f, -1, n, M.fpt(f, -1), 1, 0)
                else:
                    uR = M.U_c2c(f, 1 - side, E.u[o])
                for i in range(S.dim):
                    for j in range(S.nv):
                        out[i][j] = out[i][j] + M.area(f) * n[i] * (uR[j] - E.u[c][j]) / 2
        return [[x / M.vol(c) for x in r] for r in out]


def check(R, P, model, tag, kw):
    S = Sim(P, model, FACES, **kw)
    I, M, A = S.I, S.M, S.A
    fn = S.find()
    where = fn.loc()
    try:
        S.run()
    except Broken as e:
        R.viol("%s|%s" % (e, "run"), getattr(e, "where", where) or where, "EvaluateRHS: %s [%s, %s]" % (e, model, tag))
        return
    R.count("evaluations")
    E = Expect(S)
    C = Cmp(R, S, "%s, %s" % (model, tag), where)
    wall = S.bcname
    for f, (l, r, z) in enumerate(FACES):
        kind = "boundary" if r is None else "periodic" if M.pk(f) else "interior"
        cl = S.calls.get(f, [])
        if len(cl) != 1:
            R.viol("calls", where, "the flux through %s face is evaluated %d times [%s, %s]" % (kind, len(cl), model, tag))
            continue
        c = cl[0]
        q = E.fqs(f)
        if c["k"] != len(q):
            R.viol("points", c["where"], "the flux of a face is evaluated at %d points of %d [%s, %s]" % (c["k"], len(q), model, tag))
            continue
        R.count("flux_calls")
        w = c["where"]
        C("zone", [A.const(c["zone"])], [A.const(z)], "the flux of a %s face gets the boundary id of another" % kind, w)
        C("rsType", [A.const(c["rs"])], [A.const(3)], "the flux of a %s face does not use the configured Riemann solver" % kind, w)
        if bool(c["ign"]) != E.ign:
            R.viol("ignoreVis", w, "viscosity switch not handed to the flux [%s, %s]" % (model, tag))
        for k, g, _ in q:
            e = E.face(f, g)
            colm = lambda m: [m.v[i * m.c + k] for i in range(m.r)]
            C("UL", colm(c["UL"]), e["UL"], "left state of a %s face is not the left cell's reconstruction in the face's frame" % kind, w)
            C("UR", colm(c["UR"]), e["UR"], "right state of a %s face is not the right cell's reconstruction (or boundary state) in the face's frame" % kind, w)
            C("n", colm(c["n"]), e["n"], "normal handed to the flux of a %s face" % kind, w)
            C("vg", colm(c["vg"]), E.vg(f, g), "grid velocity handed to the flux of a %s face" % kind, w)
            if not E.ign:
                blk = lambda m: m.v[k * S.dim * m.c:(k + 1) * S.dim * m.c]
                C("G", blk(c["G"]), e["G"], "gradient handed to the flux of a %s face is not the mean of both sides plus the jump term" % kind, w)
                C("GP", blk(c["GP"]), e["GP"], "gradient of the primitive variables handed to the flux of a %s face" % kind, w)
        C("ULM", c["ULM"], e["ULM"], "left mean state of a %s face" % kind, w)
        C("URM", c["URM"], e["URM"], "right mean state of a %s face" % kind, w)
        C("nC", c["nC"], M.norm(f, -1)[:S.dim], "mean normal of a %s face" % kind, w)
        C("vgC", c["vgC"], E.vg(f, -1), "mean grid velocity of a %s face" % kind, w)
    for c in range(M.ncell):
        rhs, jac = E.residual(c)
        C("rhs%d" % c, col(I, S.rhs.at(I, c)), rhs, "the residual of a cell is not the sum of the face fluxes (once each, with opposite signs on the two sides, in the cell's frame) over its volume plus the source")
        if jac is not None:
            if not S.js.cleared:
                R.viol("clear", where, "source Jacobian is not cleared [%s, %s]" % (model, tag))
            got = col(I, S.js.D.at(I, c))
            C("jac%d" % c, got, jac, "the source Jacobian of a cell is not the mean of the source's derivative")
        if S.opts.get("useSourceGradFixGG"):
            C("gfix%d" % c, col(I, I.rv(S.f["gradUFix"]).e[c]), E.gfix(c), "Green-Gauss correction of a cell's gradient")
    if S.opts.get("useRoeJacobian"):
        for f in range(len(FACES)):
            for nm, l in (("lambdaFace0", "l0"), ("lambdaFace123", "l1"), ("lambdaFace4", "l4")):
                e = sum((A.var("%s_%d_%d" % (l, f, k)) * w for k, g, w in E.fqs(f)), A.const(0)) / M.area(f)
                C(nm, [I.q(I.rv(S.f[nm]).e[f])], [e], "%s of a face is not the mean of the flux's eigenvalue" % nm)
    if E.rec2:
        if S.grads2nd != 1:
            R.viol("rec2", where, "second-order gradients computed %d times [%s, %s]" % (S.grads2nd, model, tag))
        else:
            a, b = M.vec("ba", S.nv), M.vec("bb", S.nv)
            nn, pp = M.pt("bn"), M.pt("bp")
            got = S.call_closure(S.fb, [Mat(S.nv, 1, a), Mat(S.nv, 1, b), A.const(0), A.const(1), A.const(-1), Mat(3, 1, nn), Mat(3, 1, pp), A.const(BCZ)])
            ULf = [A.app("@cmp%d" % k, b + [x - y for x, y in zip(a, b)]) for k in range(S.nv)]
            C("fb", col(I, got), S.bv(ULf, b, 0, 1, -1, nn[:S.dim], pp, 1, 1), "boundary value given to the second-order reconstruction")
    # ghosts get no residual from the owner's point of view: anything left there is overwritten by the exchange
    f = 1
    fx = E.flux(f)
    ar = M.area(f)
    if not S.flags & DONT_BND:
        C("fluxBnd", col(I, I.rv(S.f["fluxBnd"]).e[0]), [x / ar for x in fx], "recorded boundary flux is not the face's mean flux")
        ft = [A.const(0)] * S.dim
        for k, g, w in E.fqs(f):
            n = M.norm(f, g)[:S.dim]
            v = [S.F(f, i, k) for i in range(1, S.dim + 1)]
            vn = sum((a * b for a, b in zip(n, v)), A.const(0))
            ft = E.addto(ft, [(a - vn * b) * w / ar for a, b in zip(v, n)])
        C("fluxBndT", col(I, I.rv(S.f["fluxBndForceT"]).e[0]), ft, "recorded tangential boundary force is not the tangential part of the momentum flux")
    else:
        if any(isinstance(x, Q) for x in col(I, I.rv(S.f["fluxBnd"]).e[0])):
            R.viol("fluxBnd", where, "boundary flux recorded although asked not to [%s, %s]" % (model, tag))
    ws = col(I, S.f["fluxWallSum"])
    if S.flags & DONT_INT:
        C("wall", ws, [A.var("fws%d" % k) for k in range(S.nv)], "wall flux sum changed although asked not to update integrations")
        if S.ints:
            R.viol("ints", where, "boundary integrations touched although asked not to [%s, %s]" % (model, tag))
        return S
    C("wall", ws, [-x if wall == "BCWall" else A.const(0) for x in fx], "wall flux sum is not the flux into the walls")
    ev = [x[1] for x in S.ints]
    if S.intopt == 0:
        if S.ints:
            R.viol("ints", where, "integration of a boundary that asked for none [%s, %s]" % (model, tag))
        return S
    if ev != ["Reset", "Add", "Reduce"] or any(x[0] != BCZ for x in S.ints):
        R.viol("ints", where, "boundary integration does %s instead of reset, add, reduce [%s, %s]" % (ev, model, tag))
        return S
    _, _, v, w = S.ints[1]
    if S.intopt == 1:
        C("intv", v, [-x for x in fx], "boundary integral is not the flux into the boundary")
        C("intw", [w], [ar], "boundary integral is not weighed by the face's area")
    else:
        u = E.u[0]
        pr = E.prim(u)
        m2 = sum((x * x for x in pr[1:S.dim + 1]), A.const(0)) / (S.gamma * pr[S.dim + 1] / pr[0])
        C("intw", [w], [fx[0]], "mass-flux weighted boundary integral has another weight")
        if len(v) != S.nv + 2:
            R.viol("intv", where, "boundary integral has %d entries" % len(v))
        C("intv", v[:S.nv], [fx[0]] + [x * fx[0] for x in u[1:]], "mass-flux weighted boundary integral")
        T = pr[S.dim + 1] / (pr[0] * A.var("Rgas", positive=True))
        T0 = T * (1 + (S.gamma - 1) / 2 * m2)
        C("intT", [v[S.nv + 1]], [T0 * fx[0]], "mass-flux weighted total temperature")
        C("intP", [v[S.nv]], [pr[S.dim + 1] * A.app("pow", [T0 / T, S.gamma / (S.gamma - 1)]) * fx[0]], "mass-flux weighted total pressure")
    return S


def run(R, tier):
    R.rule("EvaluateRHS is interpreted over the extracted syntax tree on a formal mesh (two owned cells, a ghost, interior, boundary, ghost and three periodic faces) with symbolic states, reconstructions, normals, volumes, "
           "areas and Jacobians; the arguments of every flux, the residual, source Jacobian and boundary integrals are compared as rational functions with the definition of the scheme")
    R.assume("the boundary state, the numerical flux, the source and the second-order reconstruction are uninterpreted functions of their arguments here (flux and kernels: P11)")
    small = ["NS_2D", "NS_SA"]
    models = small + (["NS_3D"] if tier == "quick" else [m for m in DIMS if m not in small])
    jobs = []
    for m in models:
        P = eigen_types(Program(euler_tus([m], ["EulerEvaluator_EvaluateRHS"])))
        bcs = [b[0] if isinstance(b, (list, tuple)) else b for b in P.enums["DNDS::Euler::EulerBCType"]["c"]]
        jobs.append((kernels, (P, m), "%s: changes of frame" % m))
        jobs += [(check, (P, m, tag, kw), "%s: residual, %s" % (m, tag)) for tag, kw in configs(m, bcs, tier)]
    run_jobs(R, jobs, order=lambda i: -len(jobs[i][1][1]))
    R.need("evaluations", 1)
    if R.cov.get("undecided"):
        R.rule("obligations counted as undecided were not decided by this run")


def kernels(R, P, m):
    """the changes of frame between a face and its cells"""
    S0 = Sim(P, m, FACES)
    M0 = S0.M
    for f, (l, r, z) in enumerate(FACES):
        kind = "boundary" if r is None else "periodic" if M0.pk(f) else "interior"
        for side, c in ((0, l), (1, r)):
            if c is None:
                continue
            o = (r, l)[side]
            for given in (side, -1):
                for nm in ("UFromCell2Face", "UFromFace2Cell", "UFromOtherCell", "DiffUFromCell2Face", "DiffUFromCell2Face/reverse"):
                    if nm == "UFromOtherCell" and o is None:
                        continue
                    q = EV + "::" + nm.split("/")[0]
                    fn = [x for x in P.by_q.get(q, []) if not x.dep and x.body]
                    if not fn:
                        R.count("not_instantiated")
                        continue
                    S = Sim(P, m, FACES)
                    I, M, A = S.I, S.M, S.A
                    u = M.vec("k", S.nv)
                    g = [[A.var("k_%d_%d" % (i, j)) for j in range(S.nv)] for i in range(S.dim)]
                    df = nm.startswith("Diff")
                    cell = I.store(Mat(S.dim, S.nv, [x for y in g for x in y]) if df else Mat(S.nv, 1, u))
                    a = [cell, A.const(f), A.const(c)]
                    if nm == "UFromOtherCell":
                        a.append(A.const(o))
                    a.append(A.const(given))
                    if df:
                        a.append(nm.endswith("reverse"))
                    want = {"UFromCell2Face": lambda: M.U_c2f(f, side, u), "UFromFace2Cell": lambda: M.U_f2c(f, side, u),
                            "UFromOtherCell": lambda: M.U_c2c(f, 1 - side, u), "DiffUFromCell2Face": lambda: M.G_c2f(f, side, g),
                            "DiffUFromCell2Face/reverse": lambda: M.G_c2f(f, side, g, rev=True)}[nm]()
                    try:
                        I.call(fn[0], a, this=S)
                    except Broken as e:
                        R.viol("%s|run" % nm, e.where, "%s: %s [%s]" % (nm, e, m))
                        continue
                    R.count("frame_changes")
                    Cmp(R, S, m, fn[0].loc())(nm, col(I, cell), want, "%s on the %s side of a %s face is not the periodic change of frame" % (nm, ("left", "right")[side], kind))


def configs(m, bcs, tier):
    out = [("boundary type %s" % b, dict(bctype=b)) for b in bcs if b not in ("BCUnknown",)]
    W = "BCWall"
    out += [("unlimited reconstruction kept apart", dict(unlim=True, bctype=W)),
            ("second-order path", dict(flags=REC2, bctype=W)),
            ("second-order path, unlimited kept apart", dict(flags=REC2, bctype="BCIn", unlim=True)),
            ("second-order path with first-order convection", dict(flags=REC2 | REC2_1ST, bctype=W)),
            ("no viscosity", dict(flags=IGNORE_VIS, bctype=W)),
            ("primitive gradients", dict(opts={"usePrimGradInVisFlux": 1}, bctype=W)),
            ("Green-Gauss source gradient", dict(opts={"useSourceGradFixGG": 1}, bctype=W)),
            ("second-order RANS source", dict(opts={"ransSource2nd": 1}, bctype=W)),
            ("no Riemann solver on walls", dict(opts={"noRsOnWall": 1}, bctype=W)),
            ("no jump term on walls", dict(opts={"noGRPOnWall": 1}, bctype=W)),
            ("block source Jacobian", dict(block=True)),
            ("no source", dict(opts={"ignoreSourceTerm": 1})),
            ("no integrations", dict(flags=DONT_INT, bctype=W, intopt=1)),
            ("no boundary flux", dict(flags=DONT_BND, bctype=W)),
            ("integration 1", dict(intopt=1, bctype=W)), ("integration 2", dict(intopt=2)),
            ("Roe Jacobian", dict(opts={"useRoeJacobian": 1})),
            ("rotating frame", dict(rot=True, bctype=W))]
    return out
