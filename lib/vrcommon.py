"""Analysis of the finite-volume geometry, the polynomial basis and the variational reconstruction (P16, P17)."""
from prog import *
from fvmodel import *
from evcommon import Cmp, same_q, BCZ
from report import run_jobs
from fractions import Fraction as F

VR = "DNDS::CFV::VariationalReconstruction"
FACES = [(0, 1, 0), (0, None, BCZ), (1, 0, -1), (0, 1, -5), (2, 1, 0), (1, 2, -2), (2, 0, -4)]
NC, NP = 2, 3


class PArr(Arr):
    """array pair; set-up calls have no effect here"""

    def meth(self, I, fr, n, nm, args):
        if nm in ("CompressBoth", "TransAttach", "ResizeRow", "Compress", "Decompress"):
            for a in args:
                I.ev(fr, a)
            return None
        return Arr.meth(self, I, fr, n, nm, args)


class PArr2(PArr):
    """array of rows of matrices: (entity, k)"""

    def __init__(self, name, make, size, ncols):
        PArr.__init__(self, name, make, size)
        self.ncols = ncols

    def idx(self, I, fr, n, args):
        k = [I.int(a) for a in args]
        if not 0 <= k[0] < self.size:
            raise I.broken("%s[%d] is out of range (%d entities)" % (self.name, k[0], self.size))
        if len(k) == 1:
            return PRow(self, k[0])
        if not 0 <= k[1] < self.ncols(k[0]):
            raise I.broken("%s: entry %d of a row of %d" % (self.name, k[1], self.ncols(k[0])))
        c = self.at(I, *k)
        v = I.rv(c)
        return v if isinstance(v, View) else c

    def meth(self, I, fr, n, nm, args):
        if nm == "RowSize":
            return I.A.const(self.ncols(I.int(I.ev(fr, args[0]))))
        return PArr.meth(self, I, fr, n, nm, args)


class PRow(Obj):
    def __init__(self, arr, k):
        self.arr, self.k = arr, k

    def idx(self, I, fr, n, args):
        return self.arr.idx(I, fr, n, [I.A.const(self.k)] + list(args))

    def meth(self, I, fr, n, nm, args):
        if nm in ("operator[]", "operator()", "at"):
            return self.idx(I, fr, n, [I.ev(fr, a) for a in args])
        if nm in ("size", "Size"):
            return I.A.const(self.arr.ncols(self.k))
        if nm == "setConstant":
            v = I.q(I.ev(fr, args[0]))
            for j in range(self.arr.ncols(self.k)):
                I.assign(self.arr.at(I, self.k, j), v)
            return None
        if nm == "array":
            return Mat(self.arr.ncols(self.k), 1, [I.q(self.arr.at(I, self.k, j)) for j in range(self.arr.ncols(self.k))], True)
        return NotImplemented

    def items(self, I):
        return [self.arr.at(I, self.k, j) for j in range(self.arr.ncols(self.k))]


class Fun(Obj):
    """callable of the environment"""

    def __init__(self, f):
        self.fn = f

    def idx(self, I, fr, n, args):
        return self.fn(I, fr, n, args)

    def meth(self, I, fr, n, nm, args):
        if nm == "operator()":
            return self.fn(I, fr, n, [I.ev(fr, a) for a in args])
        if nm == "operator bool":
            return True
        return NotImplemented


class VQuad(Quad):
    """quadrature rule: formal weights, formal points and Jacobians of the mapping"""

    def meth(self, I, fr, n, nm, args):
        if nm == "Integration":
            buf = I.ev(fr, args[0])
            f = I.rv(I.ev(fr, args[1]))
            for g in range(self.npts):
                self.M.inq = (self.key, g)
                acc = self.M.acc_like(buf)
                I.apply(fr, n, f, [acc, I.store(I.A.const(g)), I.store(Mat(3, 1, self.M.pt("xi%s_%d" % (self.key, g)))), I.store(QP(self, g))], None)
                if self.M.noop(buf):
                    continue
                a = I.rv(acc)
                if isinstance(I.rv(buf), (Mat, View)):
                    a, b = I.mat(a), I.mat(I.rv(buf))
                    if (a.r, a.c) != (b.r, b.c):
                        raise I.broken("integrand of %dx%d added to %dx%d" % (a.r, a.c, b.r, b.c))
                    if any(not isinstance(x, Q) for x in a.v):
                        if any("unset" in str(x) for x in a.v):
                            raise I.broken("what is integrated reads a value before it is computed")
                        raise Undecided("integrand: %s" % next(x for x in a.v if not isinstance(x, Q)))
                    I.assign(buf, Mat(b.r, b.c, [y + x * self.w(g) for x, y in zip(a.v, b.v)]))
                else:
                    I.assign(buf, I.q(buf) + I.q(a) * self.w(g))
            self.M.inq = None
            return None
        return Quad.meth(self, I, fr, n, nm, args)


class QP(Obj):
    """shape functions at a quadrature point"""

    def __init__(self, q, g):
        self.q, self.g = q, g


class VM(Model):
    def __init__(self, P, dim, nv, nrec, faces=FACES, ncell=NC, nproc=NP, nquad=2):
        Model.__init__(self, P, dim, dim, nv, faces, ncell, nproc, len(faces) - 1, nrec=nrec, nquad=nquad)
        self.inq = None
        self.flip = False

    def acc_like(self, buf):
        I = self.I
        v = I.rv(buf)
        if isinstance(v, Mat):
            return I.store(Mat(v.r, v.c, [Top("uninitialised integrand")] * (v.r * v.c)))
        if isinstance(v, View):
            m = I.mat(v)
            return I.store(Mat(m.r, m.c, [Top("uninitialised integrand")] * (m.r * m.c)))
        return I.store(Top("uninitialised integrand"))

    def noop(self, buf):
        v = self.I.rv(buf)
        return isinstance(v, Rec) or isinstance(v, Obj)

    def fq(self, f, o1):
        return VQuad(self, "f%d%s" % (f, "o" if o1 else ""), 1 if o1 else self.nquad)

    def cq(self, c, o1):
        return VQuad(self, "c%d%s" % (c, "o" if o1 else ""), 1 if o1 else self.nquad)

    def quad(self, key, order):
        return VQuad(self, key + {1: "o", 5: "", 7: "vr"}.get(order, "max"), 1 if order == 1 else self.nquad)

    def qpt(self, key, g):
        """physical point of a quadrature point (key of the rule)"""
        m = re.match(r"([fc])(\d+)(.*)$", key)
        i = int(m.group(2))
        if m.group(3) in ("", "o"):
            return (self.fpt if m.group(1) == "f" else self.cpt)(i, g if m.group(3) == "" else -1)
        return self.pt("x%s_%d" % (key, g))

    def qjac(self, key, g):
        """Jacobian of the mapping: columns d x / d xi. A rotation, different at every point, of an upper triangular matrix
        with formal entries: any Jacobian of a valid element is of this form"""
        d = self.gdim
        n = d - 1 if key[0] == "f" else d
        k = (sum(map(ord, key)) + g) % 3
        F_ = Fraction
        if d == 2:
            c, s = [(F_(3, 5), F_(4, 5)), (F_(5, 13), F_(12, 13)), (F_(8, 17), F_(-15, 17))][k]
            U = [[c, -s], [s, c]]
        else:
            U = [[F_(2, 3), F_(-1, 3), F_(2, 3)], [F_(2, 3), F_(2, 3), F_(-1, 3)], [F_(-1, 3), F_(2, 3), F_(2, 3)]]
            U = [U[(i + k) % 3] for i in range(3)]
        t = lambda i, j: self.A.var("j%s_%d_%d%d" % (key, g, i, j), positive=i == j)
        if key[0] == "c" and self.flip:
            U = [[-x for x in r[:1]] + r[1:] for r in U]
            t = lambda i, j, t=t: t(i, j) if i == j else self.A.const(0)
        return [[sum((t(a, j) * U[i][a] for a in range(j + 1)), self.A.const(0)) if i < d and j < n else self.A.const(0) for j in range(3)] for i in range(3)]

    def qdet(self, key, g):
        n = self.gdim - 1 if key[0] == "f" else self.gdim
        r = self.A.const(1)
        for i in range(n):
            r = r * self.A.var("j%s_%d_%d%d" % (key, g, i, i), positive=True)
        return r


class Sim(VFV):
    """the reconstruction object (this)"""

    def __init__(S, P, dim, nv, nrec, opts=None, same=True, nquad=2, faces=FACES, ncell=NC, nproc=NP):
        S.P = P
        M = VM(P, dim, nv, nrec, faces, ncell, nproc, nquad)
        VFV.__init__(S, M)
        S.dim, S.nv, S.nrec = dim, nv, nrec
        S.I, S.A = I, A = M.I, M.A
        S.same = same
        o = {"maxOrder": A.const(2), "intOrderVRIsSame()": same, "intOrderVRValue()": A.const(5 if same else 7), "intOrder": A.const(5)}
        o.update({k: (A.const(v) if isinstance(v, (int, F)) and not isinstance(v, bool) else v) for k, v in (opts or {}).items()})
        S.o = o
        S.f["settings"] = Settings(o)
        S.f["periodicity"] = M.per
        S.relax = [A.var("relax%d" % c) for c in range(nproc)]
        S.f["cellAtr"] = Arr("cellAtr", lambda I, c: Rec("RecAtr", {"NDIFF": I.store(A.const(20 if dim == 3 else 10)), "NDOF": I.store(A.const(nrec + 1)), "relax": I.store(S.relax[c])}), nproc)
        k = nrec
        nf = lambda c: len(M.c2f[c])
        mat = lambda nm, r, c: Mat(r, c, [A.var("%s_%d_%d" % (nm, i, j)) for i in range(r) for j in range(c)])
        S.mat = mat
        S.f["matrixAAInvB"] = PArr2("matrixAAInvB", lambda I, c, j: mat("AB%d_%d" % (c, j), k, k), ncell, lambda c: nf(c) + 1)
        S.f["vectorAInvB"] = PArr2("vectorAInvB", lambda I, c, j: mat("Ab%d_%d" % (c, j), k, 1), ncell, nf)
        S.f["matrixAHalf_GG"] = Arr("matrixAHalf_GG", lambda I, c: mat("AH%d" % c, dim, k), ncell)
        S.f["FTransPeriodic"] = Fun(lambda I, fr, n, a: S.ftrans(a, 1))
        S.f["FTransPeriodicBack"] = Fun(lambda I, fr, n, a: S.ftrans(a, -1))
        S.over["FFaceFunctional"] = S.h_func
        S.over["GetGreenGauss1WeightOnCell"] = lambda I, fr, n, a: S.ggw(I.int(I.ev(fr, a[0])))
        S.bcalls = []

    # ------------------------------------------------------------ opaque parts
    def ggw(S, c):
        return S.A.var("ggw%d" % c)

    def ftrans(S, a, sgn):
        """the variables' own rotation under periodicity k: rows are states"""
        I, M = S.I, S.M
        z = I.int(a[1])
        if not -6 <= z <= -1:
            return None
        k = -z if z >= -3 else -z - 3
        m = I.mat(a[0])
        out = []
        for r in range(m.r):
            u = m.v[r * m.c:(r + 1) * m.c]
            out += [u[0]] + M.mv(M.rot[k], u[1:S.dim + 1], S.dim, t=sgn < 0) + u[S.dim + 1:]
        I.assign(a[0], Mat(m.r, m.c, out))
        return None

    def W(S, f, d):
        return S.A.var("W%d_%d" % (f, d))

    def func(S, f, DI, DJ):
        """face functional: a weighted product over derivatives (formal weight per face and derivative)"""
        nd = len(DI)
        return [[sum((S.W(f, d) * DI[d][i] * DJ[d][j] for d in range(nd)), S.A.const(0)) for j in range(len(DJ[0]))] for i in range(len(DI[0]))]

    def h_func(S, I, fr, n, args):
        a = [I.ev(fr, x) for x in args]
        di, dj = I.mat(a[0]), I.mat(a[1])
        f, cl, cr = I.int(a[2]), I.int(a[3]), I.int(a[4])
        if di.r != dj.r:
            raise I.broken("face functional of %d and %d derivatives" % (di.r, dj.r))
        rows = lambda m: [m.v[i * m.c:(i + 1) * m.c] for i in range(m.r)]
        for x in di.v + dj.v:
            if not isinstance(x, Q):
                raise Undecided("face functional of %s" % (x,))
        v = S.func(f, rows(di), rows(dj))
        return Mat(di.c, dj.c, [x for r in v for x in r])

    def bval(S, tag, args, f):
        return [S.A.app("@%s%d_%d" % (tag, f, k), args) for k in range(S.nv)]

    def fb(S, diff):
        def call(I, fr, n, a):
            z = I.int(a[-1])
            c, f, g = (I.int(x) for x in a[-6:-3])
            if z != S.M.zone(f):
                raise I.broken("boundary value of face %d with the boundary id of another" % f)
            ar = [x for v in a[:-6] for x in col(I, v)] + [S.A.const(c), S.A.const(g)] + col(I, a[-3])[:S.dim] + col(I, a[-2])[:S.dim]
            for x in ar:
                if not isinstance(x, Q):
                    raise Undecided("boundary argument: %s" % (x,))
            return Mat(S.nv, 1, S.bval("bd" if diff else "bv", ar, f))
        return Fun(call)

    def meth(S, I, fr, n, nm, args):
        if nm.startswith("MakePairDefaultOn"):
            for a in args:
                I.ev(fr, a)
            return None
        return VFV.meth(S, I, fr, n, nm, args)

    # ------------------------------------------------------------ expected values
    def rec(S, nm, c):
        return [[S.A.var("%s%d_%d_%d" % (nm, c, i, j)) for j in range(S.nv)] for i in range(S.nrec)]

    def u(S, c):
        return S.M.vec("u%d" % c, S.nv)

    def arr(S, nm, rows, cols=None, unset=False):
        cols = cols or S.nv
        return Arr(nm, (lambda I, c: Mat(rows, cols, [Top("unset")] * (rows * cols))) if unset else (lambda I, c: Mat(rows, cols, [x for r in S.rec(nm, c) for x in r])), NP, rows)

    def side(S, c, f):
        return 0 if S.M.faces[f][0] == c else 1

    def other(S, c, f):
        l, r, z = S.M.faces[f]
        return r if l == c else l

    def toown(S, c, f, m):
        """rows (states in the neighbour's frame) -> frame of c"""
        return [S.M.U_c2c(f, 1 - S.side(c, f), r) for r in m]

    def mm(S, a, b):
        return [[sum((a[i][k] * b[k][j] for k in range(len(b))), S.A.const(0)) for j in range(len(b[0]))] for i in range(len(a))]

    def AB(S, c, j):
        return [[S.A.var("AB%d_%d_%d_%d" % (c, j, a, b)) for b in range(S.nrec)] for a in range(S.nrec)]

    def Ab(S, c, j):
        return [[S.A.var("Ab%d_%d_%d_0" % (c, j, a))] for a in range(S.nrec)]

    def bndrhs(S, c, f, rec, recd=None):
        """integral over a boundary face of the functional of the basis and the boundary increment"""
        M, A = S.M, S.A
        out = [[A.const(0)] * S.nv for _ in range(S.nrec)]
        gg = S.o.get("functionalSettings.greenGauss1Weight")
        pts = [("p", g) for g in range(M.nquad)] if S.same or gg is not None else []
        if not S.same:
            pts += [("v", g) for g in range(M.nquad)]
        for kind, g in pts:
            if kind == "p":
                p, nn, J, w, gq = M.fpt(f, g), M.norm(f, g), M.fjac(f, g), M.fq(f, False).w(g), g
                b = M.base(c, p, 0)
            else:
                p, nn, J, w, gq = M.pt("bvx%d_%d" % (f, g)), M.vec("bvn%d_%d" % (f, g), 3), A.var("bvJ%d_%d" % (f, g)), S.vrq(f).w(g), -2
                b = [A.var("bvb%d_%d_0_%d" % (f, g, k)) for k in range(S.nrec)]
            dot = lambda r: [sum((b[k] * r[k][j] for k in range(S.nrec)), A.const(0)) for j in range(S.nv)]
            um = S.u(c)
            ul = [x + y for x, y in zip(dot(rec), um)]
            ar = ul + (dot(recd) if recd else []) + um + [A.const(c), A.const(gq)] + nn[:S.dim] + p[:S.dim]
            bv = S.bval("bd" if recd else "bv", ar, f)
            inc = bv if recd else [x - y for x, y in zip(bv, um)]
            v = [[A.const(0)] * S.nv for _ in range(S.nrec)]
            if kind == "v" or S.same:
                v = S.func(f, [b], [inc])
            if kind == "p" and gg is not None:
                H = [[A.var("AH%d_%d_%d" % (c, i, j)) for j in range(S.nrec)] for i in range(S.dim)]
                bias = S.o["functionalSettings.greenGauss1Bias"]
                for i in range(S.nrec):
                    s = sum((H[d][i] * nn[d] for d in range(S.dim)), A.const(0)) * bias * S.ggw(c)
                    v[i] = [x + s * y for x, y in zip(v[i], inc)]
            out = [[x + y * J * w for x, y in zip(r, s)] for r, s in zip(out, v)]
        return out

    def vrq(S, f):
        return VQuad(S.M, "f%dvr" % f, S.M.nquad)


def fnof(P, dim, name):
    fs = [f for f in P.by_q.get("%s::%s" % (VR, name), []) if not f.dep and f.body and ("VariationalReconstruction<%d>" % dim) in f.key]
    if not fs:
        raise AnalysisError("VariationalReconstruction<%d>::%s is not there any more" % (dim, name))
    return fs[0]


def A_const(I, x):
    return I.A.const(x)


class Elem(Obj):
    def __init__(s, key):
        s.key = key


def coords(M, key):
    """node coordinates of an element: one column per node"""
    n = 2
    return Mat(3, n, [M.A.var("X%s_%d_%d" % (key, i, j)) if i < M.gdim else M.A.const(0) for i in range(3) for j in range(n)])


def vr_hooks(S):
    I, M = S.I, S.M

    def newquad(I, fr, n, a):
        e, o = I.rv(a[0]), I.int(a[1])
        if not isinstance(e, Elem):
            raise Undecided("quadrature of an unknown element")
        return M.quad(e.key, o)
    I.hooks["new DNDS::Geom::Elem::Quadrature"] = newquad

    def at(I, a):
        c, q = I.mat(a[0]), I.rv(a[1])
        if not isinstance(c, Mat) or not isinstance(q, QP):
            raise Undecided("coordinates or shape functions of something else")
        k = re.match(r"[fc]\d+", q.q.key).group(0)
        w = coords(M, k)
        if len(w.v) != len(c.v) or not all(same_q(x, y) for x, y in zip(c.v, w.v)):
            raise I.broken("shape functions of one element with the coordinates of another")
        return q.q.key, q.g
    I.hooks["DNDS::Geom::Elem::PPhysicsCoordD01Nj"] = lambda I, fr, n, a: Mat(3, 1, M.qpt(*at(I, a)))
    I.hooks["DNDS::Geom::Elem::ShapeJacobianCoordD01Nj"] = lambda I, fr, n, a: Mat(3, 3, [x for r in M.qjac(*at(I, a)) for x in r])
    I.hooks["DNDS::MPI::Allreduce"] = lambda I, fr, n, a: None
    I.hooks["DNDS::log"] = lambda I, fr, n, a: Top("log")
    mesh = M.mesh
    mm = mesh.meth
    mesh.f["cell2cell"] = NoOp()
    mesh.f["cell2face"] = PArr2("cell2face", lambda I, c, k: A_const(I, M.c2f[c][k]), M.nproc, lambda c: len(M.c2f[c]))

    def meth(I, fr, n, nm, args):
        if nm in ("GetFaceElement", "GetCellElement"):
            return Elem(nm[3].lower() + str(I.int(I.ev(fr, args[0]))))
        if nm in ("GetCoordsOnFace", "GetCoordsOnCell"):
            a = [I.ev(fr, x) for x in args]
            I.assign(a[1], coords(M, nm[11].lower() + str(I.int(a[0]))))
            return None
        return mm(I, fr, n, nm, args)
    mesh.meth = meth


def iteration(R, P, dim, kw, mode):
    S = Sim(P, dim, {2: 5, 3: 7}[dim], {2: 2, 3: 3}[dim], **kw)
    vr_hooks(S)
    I, M, A = S.I, S.M, S.A
    S.f["bndVRCaches"] = PArr2("bndVRCaches", lambda I, f, g: Rec("BndVRPointCache", {
        "norm": Mat(3, 1, M.vec("bvn%d_%d" % (f, g), 3)), "PPhy": Mat(3, 1, M.pt("bvx%d_%d" % (f, g))), "JDet": A.var("bvJ%d_%d" % (f, g)),
        "D0Bj": S.mat("bvb%d_%d" % (f, g), 1, S.nrec)}), len(FACES), lambda f: M.nquad)
    name = {"diff": "DoReconstructionIterDiff", "sor": "DoReconstructionIterSOR", "rsor": "DoReconstructionIterSOR"}.get(mode, "DoReconstructionIter")
    fn = fnof(P, dim, name)
    uRec, uNew, u = S.arr("uRec", S.nrec), S.arr("uRecNew", S.nrec), Arr("u", lambda I, c: M.col("u%d" % c, S.nv), NP, S.nv)
    uD = S.arr("uRecDiff", S.nrec)
    tag = "%dD %s %s" % (dim, mode, kw)
    C = Cmp(R, S, tag, fn.loc())
    sor = S.o.get("SORInstead") is not None
    cur = {c: S.rec("uRec", c) for c in range(NP)}
    zero = [[A.const(0)] * S.nv for _ in range(S.nrec)]
    add = lambda x, y, s=1: [[a + b * s for a, b in zip(r, q)] for r, q in zip(x, y)]
    scale = lambda x, s: [[a * s for a in r] for r in x]

    def operator(c, val, recbase=None, mean=True, bnd=True, homog=True):
        """A^-1 (sum_j B_j val_j + b_j (u_j - u_c)) + A^-1 boundary"""
        out = zero
        for j, f in enumerate(M.c2f[c]):
            o = S.other(c, f)
            if o is None:
                if bnd:
                    t = S.bndrhs(c, f, val(c)) if recbase is None else S.bndrhs(c, f, recbase(c), val(c))
                    out = add(out, S.mm(S.AB(c, 0), t))
                continue
            if homog:
                out = add(out, S.mm(S.AB(c, j + 1), S.toown(c, f, val(o))))
            if mean:
                du = [[x - y for x, y in zip(S.toown(c, f, [S.u(o)])[0], S.u(c))]]
                out = add(out, S.mm(S.Ab(c, j), du))
        return out
    old = lambda c: S.rec("uRec", c)
    R.count("iterations")
    text = "%s does not apply the reconstruction operator" % name
    if mode == "diff":
        I.call(fn, [uRec, uD, uNew, u, S.fb(True)], this=S)
        for c in range(NC):
            d = lambda k: S.rec("uRecDiff", k)
            want = add(d(c), operator(c, d, recbase=old, mean=False), -1)
            C("diff", col(I, uNew.at(I, c)), want, text)
        for c in range(NP):
            C("diff|in", col(I, uD.at(I, c)), S.rec("uRecDiff", c), "%s changes its input" % name)
        return
    if mode in ("sor", "rsor"):
        I.call(fn, [uRec, uD, uNew, u, S.fb(True), mode == "rsor"], this=S)
        cur = {c: S.rec("uRecNew", c) for c in range(NP)}
        for c in (range(NC) if mode == "sor" else reversed(range(NC))):
            base = add(scale(cur[c], A.const(1) - S.relax[c]), S.rec("uRecDiff", c))
            # neighbour terms first read the partly updated own value on faces that lead back to the cell itself only
            val = dict(cur)
            acc = base
            for j, f in enumerate(M.c2f[c]):
                o = S.other(c, f)
                val[c] = acc
                if o is None:
                    t = S.mm(S.AB(c, 0), S.bndrhs(c, f, S.rec("uRec", c), acc if S.o.get("_inplace") else acc))
                else:
                    t = S.mm(S.AB(c, j + 1), S.toown(c, f, cur[o]))
                acc = add(acc, scale(t, S.relax[c]))
            cur[c] = acc
        for c in range(NP):
            C("sor", col(I, uNew.at(I, c)), cur[c], text)
        return
    inc, isz, new = "inc" in mode, "zero" in mode, "new" in mode or "inc" in mode
    I.call(fn, [uRec, uNew, u, S.fb(False), new, inc, isz], this=S)
    if inc:
        for c in range(NC):
            if isz and any(S.other(c, f) is None for f in M.c2f[c]):
                continue        # the residual of a vanishing reconstruction is defined by the code without the boundary part
            want = add(zero if isz else old(c), operator(c, old, bnd=not isz, homog=not isz), -1)
            C("inc", col(I, uNew.at(I, c)), want, text)
            C("inc|in", col(I, uRec.at(I, c)), old(c), "%s changes its input while it records an increment" % name)
        return
    if not sor:
        res = {c: add(scale(old(c), A.const(1) - S.relax[c]), scale(operator(c, old), S.relax[c])) for c in range(NC)}
        for c in range(NC):
            C("jacobi", col(I, (uNew if new else uRec).at(I, c)), res[c], text)
        for c in range(NC, NP):
            C("jacobi|ghost", col(I, uRec.at(I, c)), old(c), "%s changes a ghost cell" % name)
        return
    for c in range(NC):
        acc = scale(cur[c], A.const(1) - S.relax[c])
        for j, f in enumerate(M.c2f[c]):
            o = S.other(c, f)
            if o is None:
                t = S.mm(S.AB(c, 0), S.bndrhs(c, f, acc))
            else:
                du = [[x - y for x, y in zip(S.toown(c, f, [S.u(o)])[0], S.u(c))]]
                t = add(S.mm(S.AB(c, j + 1), S.toown(c, f, cur[o])), S.mm(S.Ab(c, j), du))
            acc = add(acc, scale(t, S.relax[c]))
        cur[c] = acc
    for c in range(NC):
        C("sor", col(I, (uNew if new else uRec).at(I, c)), cur[c], text)


def coeff(R, P, dim, kw):
    """ConstructRecCoeff: A, B_j, b_j of the functional; secondary matrices"""
    S = Sim(P, dim, {2: 5, 3: 7}[dim], {2: 2, 3: 3}[dim], **kw)
    vr_hooks(S)
    I, M, A = S.I, S.M, S.A
    nr, nf = S.nrec, len(FACES)
    fn = fnof(P, dim, "ConstructRecCoeff")
    tag = "%dD %s" % (dim, kw)
    C = Cmp(R, S, tag, fn.loc())
    un = lambda r, c: (lambda I, *k: Mat(r, c, [Top("unset")] * (r * c)))
    ncf = lambda c: len(M.c2f[c])
    S.f.update({"matrixAAInvB": PArr2("matrixAAInvB", un(nr, nr), NC, lambda c: ncf(c) + 1), "vectorAInvB": PArr2("vectorAInvB", un(nr, 1), NC, ncf),
                "matrixAB": PArr2("matrixAB", un(nr, nr), NC, lambda c: ncf(c) + 1), "vectorB": PArr2("vectorB", un(nr, 1), NC, ncf),
                "matrixAHalf_GG": PArr("matrixAHalf_GG", un(dim, nr), NC), "matrixA": PArr("matrixA", un(nr, nr), NC),
                "matrixSecondary": PArr("matrixSecondary", un(nr, 2 * nr), nf), "needOriginalMatrix": True, "needMatrixACholeskyL": False})
    nd = dim + 1
    at = lambda n: Arr(n, lambda I, c: Rec("RecAtr", {"NDIFF": I.store(A.const(nd)), "NDOF": I.store(A.const(nr + 1)), "relax": I.store(A.const(1))}), nf)
    S.f["cellAtr"], S.f["faceAtr"] = at("cellAtr"), at("faceAtr")
    inv = []

    def h_inv(I, fr, n, a):
        m = I.mat(a[0])
        k = len(inv)
        inv.append(m)
        I.assign(a[1], Mat(m.r, m.c, [A.var("Inv%d_%d" % (k, i)) for i in range(m.r * m.c)]))
        return A.const(1)
    I.hooks["DNDS::HardEigen::EigenLeastSquareInverse"] = I.hooks["DNDS::HardEigen::EigenLeastSquareInverse_Filtered"] = h_inv

    def h_solve(I, fr, n, a):
        x, y = I.mat(a[0]), I.mat(a[1])
        if x.r != y.r:
            raise I.broken("least squares of %d and %d rows" % (x.r, y.r))
        ar = x.v + y.v
        I.assign(a[2], Mat(x.c, y.c, [A.app("@lss%d" % i, ar) for i in range(x.c * y.c)]))
        return A.const(x.c)
    I.hooks["DNDS::HardEigen::EigenLeastSquareSolve"] = h_solve
    I.call(fn, [], this=S)
    R.count("coefficient_sets")
    gg = "functionalSettings.greenGauss1Weight" in S.o
    zero = lambda r, c: [[A.const(0)] * c for _ in range(r)]
    add = lambda x, y, s: [[a + b * s for a, b in zip(r, q)] for r, q in zip(x, y)]
    T = lambda m: [list(r) for r in zip(*m)]

    def fpts(f, vr):
        for g in range(M.nquad):
            k = "f%d%s" % (f, "" if not vr or S.same else "vr")
            if k.endswith("vr"):
                yield M.qpt(k, g), M.qdet(k, g) * S.vrq(f).w(g), None
            else:
                yield M.fpt(f, g), M.fjac(f, g) * M.fq(f, False).w(g), M.norm(f, g)

    def D(c, f, p):
        q = M.pt_f2c(f, S.side(c, f), p)
        return [M.base(c, q, d) for d in range(nd)]

    def own(c, f, Dm):
        """derivatives of the neighbour's basis (its frame) as derivatives in the frame of c"""
        so = 1 - S.side(c, f)
        g = T(Dm[1:])
        g = [M.vec_f2c(f, 1 - so, M.vec_c2f(f, so, v)) for v in g]
        return [Dm[0]] + T(g)

    def flat(m):
        return [x for r in m for x in r]
    bias = S.o.get("functionalSettings.greenGauss1Bias")
    pen = S.o.get("functionalSettings.greenGauss1Penalty")
    for c in range(NC):
        Aw = zero(nr, nr)
        for f in M.c2f[c]:
            for p, w, n in fpts(f, True):
                d = D(c, f, p)
                Aw = add(Aw, S.func(f, d, d), w)
        nout = lambda f, n: [x * (1 - 2 * S.side(c, f)) for x in M.vec_f2c(f, S.side(c, f), n)][:dim]
        AH = zero(dim, nr)

        def dlr(f):
            o = S.other(c, f)
            so = 1 - S.side(c, f)
            q = M.pt_f2c(f, 1 - so, M.pt_c2f(f, so, M.bary(o)))
            e = [x - y for x, y in zip(q, M.bary(c))]
            return qsqrt(sum((x * x for x in e), A.const(0)))
        if gg:
            for g in range(M.nquad):
                b = [M.base(c, M.cpt(c, g), d) for d in range(1, nd)]
                AH = add(AH, b, M.cjac(c, g) * M.cq(c, False).w(g))
            for f in M.c2f[c]:
                for p, w, n in fpts(f, False):
                    d, no = D(c, f, p), nout(f, n)
                    v = [[no[i] * d[0][j] * (A.const(1) - bias) for j in range(nr)] for i in range(dim)]
                    if S.other(c, f) is not None and pen is not None:
                        dn = [sum((no[i] * d[1 + i][j] for i in range(dim)), A.const(0)) for j in range(nr)]
                        v = [[v[i][j] - no[i] * dn[j] * dlr(f) * pen for j in range(nr)] for i in range(dim)]
                    AH = add(AH, v, -w)
            Aw = add(Aw, S.mm(T(AH), AH), S.ggw(c))
            C("AH", col(I, S.f["matrixAHalf_GG"].at(I, c)), AH, "Green-Gauss part of the functional: derivative minus face average of the basis")
        C("A", col(I, S.f["matrixA"].at(I, c)), Aw, "the matrix A of a cell is not the functional of its own basis over its faces")
        C("AB0", col(I, S.f["matrixAB"].at(I, c, 0)), Aw, "the stored matrix A of a cell is not the functional of its own basis over its faces")
        iv = col(I, S.f["matrixAAInvB"].at(I, c, 0))
        m = [k for k in range(len(inv)) if same_q(iv[0], A.var("Inv%d_0" % k))] if isinstance(iv[0], Q) else []
        if not m:
            raise Undecided("the inverse is not what the inversion returned")
        k = m[0]
        Inv = [[A.var("Inv%d_%d" % (k, i * nr + j)) for j in range(nr)] for i in range(nr)]
        C("inv", iv, Inv, "inverse of A is stored incompletely")
        C("inv", inv[k].v, Aw, "what is inverted for a cell is not its A")
        for j, f in enumerate(M.c2f[c]):
            o = S.other(c, f)
            bw = [A.const(0)] * nr
            for p, w, n in fpts(f, True):
                d = D(c, f, p)
                bw = [x + y[0] * w for x, y in zip(bw, S.func(f, d[:1], [[A.const(1)]]))]
            if gg:
                bh = [A.const(0)] * dim
                for p, w, n in fpts(f, False):
                    bh = [x + y * bias * w for x, y in zip(bh, nout(f, n))]
                bw = [x + sum((AH[i][k2] * bh[i] for i in range(dim)), A.const(0)) * S.ggw(c) for k2, x in enumerate(bw)]
            C("b", col(I, S.f["vectorB"].at(I, c, j)), bw, "the vector b of a cell and face is not the functional of its basis and a unit jump")
            if o is None:
                continue
            Bw = zero(nr, nr)
            for p, w, n in fpts(f, True):
                Bw = add(Bw, S.func(f, D(c, f, p), own(c, f, D(o, f, p))), w)
            if gg:
                BH = zero(dim, nr)
                for p, w, n in fpts(f, False):
                    d, no = own(c, f, D(o, f, p)), nout(f, n)
                    v = [[no[i] * d[0][q] * bias for q in range(nr)] for i in range(dim)]
                    if pen is not None:
                        dn = [sum((no[i] * d[1 + i][q] for i in range(dim)), A.const(0)) for q in range(nr)]
                        v = [[v[i][q] + no[i] * dn[q] * dlr(f) * pen for q in range(nr)] for i in range(dim)]
                    BH = add(BH, v, w)
                Bw = add(Bw, S.mm(T(AH), BH), S.ggw(c))
            C("B", col(I, S.f["matrixAB"].at(I, c, j + 1)), Bw, "the matrix B of a cell and its neighbour is not the functional of their bases in the cell's frame")
            C("AInvB", col(I, S.f["matrixAAInvB"].at(I, c, j + 1)), S.mm(Inv, Bw), "A^-1 B of a cell and its neighbour")
            C("AInvb", col(I, S.f["vectorAInvB"].at(I, c, j)), flat(S.mm(Inv, [[x] for x in bw])), "A^-1 b of a cell and face")
    for f, (l, r, z) in enumerate(FACES):
        if r is None:
            continue
        dl, dr = ([M.base(c, M.pt_f2c(f, s, M.fpt(f, -1)), d) for d in range(1, nd)] for s, c in ((0, l), (1, r)))
        got = I.mat(S.f["matrixSecondary"].at(I, f))
        for s, (x, y) in enumerate(((dl, dr), (dr, dl))):
            w = [A.app("@lss%d" % i, flat(x) + flat(y)) for i in range(nr * nr)]
            C("sec", [got.v[i * 2 * nr + s * nr + j] for i in range(nr) for j in range(nr)], w, "secondary matrix does not take one basis to the other")


class VArr(PArr):
    """std::vector over entities"""

    def meth(self, I, fr, n, nm, args):
        if nm == "resize":
            a = [I.ev(fr, x) for x in args]
            if I.int(a[0]) != self.size:
                raise I.broken("%s gets %d entries, there are %d entities" % (self.name, I.int(a[0]), self.size))
            return None
        return PArr.meth(self, I, fr, n, nm, args)


def unset(r, c=None):
    if c is None:
        return lambda I, *k: Top("unset")
    return lambda I, *k: Mat(r, c, [Top("unset")] * (r * c))


def metrics(R, P, dim, kw, deficient=False):
    """ConstructMetrics: volumes, centres, areas and normals from the mapping of the elements"""
    FACES = [(0, 1, 0), (0, None, BCZ), (1, 0, -1)]
    S = Sim(P, dim, 1, 2, faces=FACES, ncell=1, nproc=2, **kw)
    NC, NP = 1, 2
    vr_hooks(S)
    I, M, A = S.I, S.M, S.A
    I.gcache["DNDS::verySmallReal"] = I.store(A.const(0))
    M.flip = deficient
    nf = len(FACES)
    fn = fnof(P, dim, "ConstructMetrics")
    C = Cmp(R, S, "%dD %s" % (dim, kw), fn.loc())
    eig_hooks(S)
    nq = lambda k: M.nquad
    atr = lambda nm, n: VArr(nm, lambda I, c: Rec("RecAtr", {k: I.store(Top("unset")) for k in ("NDIFF", "NDOF", "relax", "intOrder", "Order")}), n)
    F3 = {"volumeLocal": VArr("volumeLocal", unset(1), NP), "cellAtr": atr("cellAtr", NP), "faceAtr": atr("faceAtr", nf),
          "cellIntJacobiDet": PArr2("cellIntJacobiDet", unset(1), NP, nq), "cellIntPPhysics": PArr2("cellIntPPhysics", unset(3, 1), NP, nq),
          "faceArea": VArr("faceArea", unset(1), nf), "faceIntJacobiDet": PArr2("faceIntJacobiDet", unset(1), nf, nq),
          "faceIntPPhysics": PArr2("faceIntPPhysics", unset(3, 1), nf, nq), "faceUnitNorm": PArr2("faceUnitNorm", unset(3, 1), nf, nq),
          "cellSmoothScale": PArr("cellSmoothScale", unset(1), NP)}
    for nm in ("cellBary", "cellCent", "cellAlignedHBox", "cellMajorHBox"):
        F3[nm] = PArr(nm, unset(3, 1), NP)
    for nm in ("cellMajorCoord", "cellInertia"):
        F3[nm] = PArr(nm, unset(3, 3), NP)
    for nm in ("faceMeanNorm", "faceCent"):
        F3[nm] = PArr(nm, unset(3, 1), nf)
    S.f.update(F3)
    S.f.update({"sumVolume": I.store(A.const(0)), "minVolume": I.store(A.const(10**30)), "maxVolume": I.store(A.const(-10**30)), "volGlobal": I.store(Top("unset")),
                "mpi": MPIInfo(M), "mRank": A.const(0)})
    S.over["GetCellParamVol"] = lambda I, fr, n, a: A.var("pv%d" % I.int(I.ev(fr, a[0])), positive=True)
    I.call(fn, [], this=S)
    R.count("metric_sets")
    v3 = lambda p, q, s: [x + y * s for x, y in zip(p, q)]
    g = lambda a, *k: col(I, F3[a].at(I, *k)) if isinstance(I.rv(F3[a].at(I, *k)), (Mat, View)) else [I.rv(F3[a].at(I, *k))]
    vols = []
    for c in range(NP):
        k = "c%d" % c
        dets = [M.qdet(k, q) for q in range(M.nquad)]
        w = [M.cq(c, False).w(q) for q in range(M.nquad)]
        v = sum((x * y for x, y in zip(dets, w)), A.const(0))
        vols.append(v)
        if deficient:
            dets = [v / A.var("pv%d" % c, positive=True)] * M.nquad
        C("volume", g("volumeLocal", c), [v], "the volume of a cell is not the integral of the Jacobian")
        b = [A.const(0)] * 3
        for q in range(M.nquad):
            C("cellJ", g("cellIntJacobiDet", c, q), [dets[q]], "Jacobian determinant at a quadrature point of a cell")
            C("cellP", g("cellIntPPhysics", c, q), M.qpt(k, q), "position of a quadrature point of a cell")
            b = v3(b, M.qpt(k, q), dets[q] * w[q])
        b = [x / v for x in b]
        C("bary", g("cellBary", c), b, "the barycentre of a cell is not its first moment over its volume")
        C("cent", g("cellCent", c), M.qpt(k + "o", 0), "the centre of a cell is not the image of the reference centre")
        X = coords(M, k)
        h = []
        for i in range(3):
            m = None
            for j in range(X.c):
                e = qabs(X.v[i * X.c + j] - b[i])
                m = e if m is None else qmax(m, e)
            h.append(A.const(1) if dim == 2 and i == 2 else m)
        C("hbox", g("cellAlignedHBox", c), h, "the aligned half box of a cell is not the largest distance of its nodes from the barycentre")
    for f in range(nf):
        k = "f%d" % f
        dets = [M.qdet(k, q) for q in range(M.nquad)]
        w = [M.fq(f, False).w(q) for q in range(M.nquad)]
        a = sum((x * y for x, y in zip(dets, w)), A.const(0))
        C("area", g("faceArea", f), [a], "the area of a face is not the integral of the Jacobian")
        mn = [A.const(0)] * 3
        for q in range(M.nquad):
            J = M.qjac(k, q)
            if dim == 2:
                nv = [J[1][0], -J[0][0], A.const(0)]
            else:
                x, y = [r[0] for r in J], [r[1] for r in J]
                nv = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]
            C("faceJ", g("faceIntJacobiDet", f, q), [dets[q]], "Jacobian determinant at a quadrature point of a face")
            C("faceP", g("faceIntPPhysics", f, q), M.qpt(k, q), "position of a quadrature point of a face")
            C("faceN", g("faceUnitNorm", f, q), [x / dets[q] for x in nv], "the normal at a quadrature point of a face is not the unit normal of the mapping")
            mn = v3(mn, nv, w[q])
        C("meanN", g("faceMeanNorm", f), [x / a for x in mn], "the mean normal of a face is not the integral of the normal over the area")
        C("fcent", g("faceCent", f), M.qpt(k + "o", 0), "the centre of a face is not the image of the reference centre")
    C("sumVol", [I.rv(S.f["volGlobal"])], [sum(vols[:NC], A.const(0))], "the global volume is not the sum over the cells owned (before the reduction)")


def eig_hooks(S):
    I, A = S.I, S.A

    def opaque(nm, rows):
        def h(I, fr, n, a):
            m = I.mat(a[0])
            if any(not isinstance(x, Q) for x in m.v):
                raise Undecided("decomposition of %s" % next(x for x in m.v if not isinstance(x, Q)))
            if rows is None:
                return A.const(2)
            return Mat(m.r, m.r, [A.app("@%s%d" % (nm, i), m.v) for i in range(m.r * m.r)])
        return h
    for d in (2, 3):
        I.hooks["DNDS::HardEigen::Eigen%dx%dRealSymEigenDecompositionGetCond" % (d, d)] = opaque("cond", None)
        I.hooks["DNDS::HardEigen::Eigen%dx%dRealSymEigenDecompositionNormalized" % (d, d)] = opaque("eign", d)
        I.hooks["DNDS::HardEigen::Eigen%dx%dRealSymEigenDecomposition" % (d, d)] = opaque("eig", d)
    I.hooks["DNDS::MPI::AllreduceOneReal"] = lambda I, fr, n, a: None


class Grow(Obj):
    """std::unordered_map<index, std::vector<...>> filled by emplace_back"""

    def __init__(s):
        s.d = {}

    def idx(s, I, fr, n, args):
        return s.d.setdefault(I.int(args[0]), GrowV())

    def meth(s, I, fr, n, nm, args):
        a = [I.ev(fr, x) for x in args]
        if nm in ("operator[]", "at"):
            if nm == "at" and I.int(a[0]) not in s.d:
                raise I.broken("the boundary cache of face %d is read before it exists" % I.int(a[0]))
            return s.idx(I, fr, n, a)
        if nm == "count":
            return I.A.const(int(I.int(a[0]) in s.d))
        return NotImplemented


class GrowV(Obj):
    def __init__(s):
        s.e = []

    def meth(s, I, fr, n, nm, args):
        if nm in ("emplace_back", "push_back"):
            r = I.rv(I.ev(fr, args[0]))
            s.e.append({k: I.mat(v).v if isinstance(I.rv(v), (Mat, View)) else [I.q(v)] for k, v in r.f.items()})
            return None
        if nm == "reserve":
            return None
        return NotImplemented


def basis(R, P, dim, o, maxorder=1):
    """ConstructBaseAndWeight and GetIntPointDiffBaseValue: the basis and its derivatives wherever they are read"""
    opts = {"maxOrder": maxorder, "jacobiRelax": F(7, 9), "bcWeight": 1, "functionalSettings.dirWeightScheme": 0}
    opts.update(o)
    FACES = [(0, 1, 0), (0, None, BCZ), (1, 0, -1), (0, 1, -5)]
    NC, NP, nf = 1, 2, 4
    ndof = {(2, 1): 3, (3, 1): 4, (2, 2): 6, (3, 2): 10}[dim, maxorder]
    same = opts.pop("same", True)
    S = Sim(P, dim, 1, ndof - 1, opts=opts, same=same, faces=FACES, ncell=NC, nproc=NP)
    vr_hooks(S)
    eig_hooks(S)
    I, M, A = S.I, S.M, S.A
    I.gcache["DNDS::verySmallReal"] = I.store(A.const(0))
    fn = fnof(P, dim, "ConstructBaseAndWeight")
    C = Cmp(R, S, "%dD %s" % (dim, o), fn.loc())
    size = opts.get("cacheDiffBaseSize", 0)
    ncd = min(ndof, size)
    nq = M.nquad
    v3 = lambda nm: (lambda I, c: Mat(3, 1, [A.var("%s%d_%d" % (nm, c, i), positive=True) for i in range(3)]))
    m3 = lambda nm: (lambda I, c: Mat(3, 3, [A.var("%s%d_%d%d" % (nm, c, i, j)) if max(i, j) < dim else A.const(int(i == j)) for i in range(3) for j in range(3)]))
    atr = lambda nm, n: VArr(nm, lambda I, c: Rec("RecAtr", {k: I.store(Top("unset") if k != "intOrder" else A.const(5)) for k in ("NDIFF", "NDOF", "relax", "intOrder", "Order")}), n)
    bnd = Grow()
    S.f.update({"cellAtr": atr("cellAtr", NP), "faceAtr": atr("faceAtr", nf), "cellBaseMoment": PArr("cellBaseMoment", unset(ndof, 1), NP),
                "cellDiffBaseCache": PArr2("cellDiffBaseCache", unset(ncd, ndof), NP, lambda c: nq), "cellDiffBaseCacheCent": PArr("cellDiffBaseCacheCent", unset(ncd, ndof), NP),
                "faceDiffBaseCache": PArr2("faceDiffBaseCache", unset(ncd, ndof), nf, lambda c: 2 * nq), "faceDiffBaseCacheCent": PArr("faceDiffBaseCacheCent", unset(ncd, 2 * ndof), nf),
                "faceWeight": PArr("faceWeight", unset(maxorder + 1, 1), nf), "faceAlignedScales": PArr("faceAlignedScales", unset(3, 1), nf),
                "faceMajorCoordScale": PArr("faceMajorCoordScale", unset(3, 3), nf), "cellAlignedHBox": Arr("cellAlignedHBox", v3("hb"), NP),
                "cellMajorHBox": Arr("cellMajorHBox", v3("hm"), NP), "cellMajorCoord": Arr("cellMajorCoord", m3("mc"), NP), "cellInertia": Arr("cellInertia", m3("in"), NP),
                "needVolIntCholeskyL": False, "bndVRCaches": bnd, "mpi": MPIInfo(M), "mRank": A.const(0)})

    def real_base(I, fr, n, args):
        return NotImplemented
    S.over["FDiffBaseValue"] = real_base

    def fill(I, fr, n, a):
        m = I.rv(a[0])
        x = [I.q(y) for y in a[1:7]]
        if any(not isinstance(y, Q) for y in x):
            raise Undecided("polynomials at %s" % (x,))
        x = x[:dim] + x[3:3 + dim]
        if I.int(a[7]) > m.r or I.int(a[8]) > m.c:
            raise I.broken("polynomial table of %dx%d written into %dx%d" % (I.int(a[7]), I.int(a[8]), m.r, m.c))
        for d in range(m.r):
            for k in range(m.c):
                I.heap[m.ids[d * m.c + k]] = A.app("@P%d_%d" % (d, k), x)
        return None
    I.hooks["DNDS::Geom::Base::FPolynomialFill%dD" % dim] = fill
    wdir = Fun(lambda I, fr, n, a: A.app("@bw", [I.q(a[0]), I.q(a[1])]))
    I.call(fn, [wdir], this=S)
    R.count("basis_sets")

    def raw(c, p, d):
        """derivative d of the polynomials at a point of the cell's frame"""
        loc = opts.get("baseSettings.localOrientation", False)
        e = [x - y for x, y in zip(p, M.cpt(c, -1))][:dim]
        h = [A.var("%s%d_%d" % ("hm" if loc else "hb", c, i), positive=True) for i in range(dim)]
        if not opts.get("baseSettings.anisotropicLengths", False):
            m = h[0]
            for y in h[1:]:
                m = qmax(m, y)
            h = [m] * dim
        T = [[A.var("mc%d_%d%d" % (c, i, j)) for j in range(dim)] for i in range(dim)]
        if loc:
            e = [sum((T[i][j] * e[i] for i in range(dim)), A.const(0)) for j in range(dim)]
        ar = [x / y for x, y in zip(e, h)] + h
        if loc and d:
            # d/dx_i = sum_j (dxi_j / dx_i) d/dxi_j
            return [sum((T[d - 1][j] * A.app("@P%d_%d" % (1 + j, k), ar) for j in range(dim)), A.const(0)) for k in range(ndof)]
        return [A.app("@P%d_%d" % (d, k), ar) for k in range(ndof)]
    mom = {}
    for c in range(NP):
        t = [A.const(0)] * ndof
        for g in range(nq):
            key = "c%dmax" % c
            t = [x + y * M.qdet(key, g) * VQuad(M, key, nq).w(g) for x, y in zip(t, raw(c, M.qpt(key, g), 0))]
        mom[c] = [x / M.vol(c) for x in t]
        C("moment", col(I, S.f["cellBaseMoment"].at(I, c)), mom[c], "the stored mean of the polynomials of a cell")

    def D(c, p, d):
        r = raw(c, p, d)
        return [x - y for x, y in zip(r, mom[c])] if d == 0 else r
    for f in range(nf):
        if any(not isinstance(x, Q) for x in col(I, S.f["faceWeight"].at(I, f))):
            t = [x for x in col(I, S.f["faceWeight"].at(I, f)) if not isinstance(x, Q)][0]
            if "unset" in str(t):
                R.viol("weight", fn.loc(), "the weights of a face are not all computed [%dD %s]" % (dim, o))
            else:
                raise Undecided("face weight %s" % t)
        R.count("face_weights")
    if not same:
        for f, (l, r, z) in enumerate(FACES):
            if r is not None:
                continue
            if f not in bnd.d or len(bnd.d[f].e) != nq:
                R.viol("bndcache", fn.loc(), "the boundary cache does not have one entry per quadrature point of a boundary face [%dD %s]" % (dim, o))
                continue
            for g, e in enumerate(bnd.d[f].e):
                key = "f%dvr" % f
                J = M.qjac(key, g)
                if dim == 2:
                    nv = [J[1][0], -J[0][0], A.const(0)]
                else:
                    x, y = [q[0] for q in J], [q[1] for q in J]
                    nv = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]
                C("bnd|norm", e["norm"], [x / M.qdet(key, g) for x in nv], "the normal kept for a boundary point is not the unit normal")
                C("bnd|pt", e["PPhy"], M.qpt(key, g), "the position kept for a boundary point")
                C("bnd|J", e["JDet"], [M.qdet(key, g)], "the Jacobian determinant kept for a boundary point")
                C("bnd|b", e["D0Bj"], D(l, M.qpt(key, g), 0)[1:], "the basis kept for a boundary point")
    insts = [f for f in P.by_q.get(VR + "::GetIntPointDiffBaseValue", []) if not f.dep and f.body and ("VariationalReconstruction<%d>" % dim) in f.key]
    for f in insts:
        ty = f.key.split("GetIntPointDiffBaseValue<", 1)[1].rsplit(" :: ", 1)[0]
        m = re.search(r"FixedInt<(\d+)>, Eigen::internal::FixedInt<(\d+)>", ty)
        if "std::array<int, 1>" in ty:
            arg, rows, mx = Seq_([I.store(A.const(0))]), [0], 1
        elif "all_t" in ty:
            arg, rows, mx = ALL, list(range(ndof)), 255
        elif m and "ArithmeticSequence<Eigen::internal::FixedInt" in ty:
            a, k = int(m.group(1)), int(m.group(2))
            arg, rows, mx = SeqIdx(A.const(a), A.const(a + k - 1), 1), list(range(a, a + k)), a + k
        else:
            continue
        if mx != 255 and mx > ndof or opts.get("baseSettings.localOrientation") and maxorder > 1:
            continue
        R.count("accessors")
        Cf = Cmp(R, S, "%dD %s %s" % (dim, o, ty[:60]), f.loc())
        a255 = A.const(mx)
        for c in range(NP):
            for g in [-1] + list(range(nq)):
                v = I.call(f, [I.store(A.const(c)), I.store(A.const(-1)), I.store(A.const(-1)), I.store(A.const(g)), arg if isinstance(arg, (str, SeqIdx)) else I.store(arg), I.store(a255)], this=S)
                Cf("cell|%s" % (ty[:30],), col(I, v), [x for d in rows for x in D(c, M.cpt(c, g), d)[1:]], "the basis at a quadrature point of a cell")
        for fc, (l, r, z) in enumerate(FACES):
            for side, c in ((0, l), (1, r)):
                if c is None:
                    continue
                for g in [-1] + list(range(nq)):
                    w = [x for d in rows for x in D(c, M.pt_f2c(fc, side, M.fpt(fc, g)), d)[1:]]
                    for i2 in (side, -1):
                        v = I.call(f, [I.store(A.const(c)), I.store(A.const(fc)), I.store(A.const(i2)), I.store(A.const(g)), arg if isinstance(arg, (str, SeqIdx)) else I.store(arg), I.store(a255)], this=S)
                        Cf("face|%s" % (ty[:30],), col(I, v), w, "the basis of a cell at a quadrature point of its face")


def enum(P, e, name):
    q = [x for x in P.enums if x.endswith("FunctionalSettings::" + e)]
    if not q:
        raise AnalysisError("no enumeration %s" % e)
    return dict(P.enums[q[0]]["c"])[name]


def functional(R, P, dim, o, nd):
    """FFaceFunctional: the weighted inner product of derivatives up to the order given"""
    opts = {"maxOrder": 3}
    opts.update(o)
    S = Sim(P, dim, 1, 2, opts=opts)
    vr_hooks(S)
    I, M, A = S.I, S.M, S.A
    del S.over["FFaceFunctional"]
    I.gcache["DNDS::verySmallReal"] = I.store(A.const(0))
    S.f["faceWeight"] = Arr("faceWeight", lambda I, f: Mat(4, 1, [A.var("fw%d_%d" % (f, p)) for p in range(4)]), len(FACES))
    S.f["faceAlignedScales"] = Arr("faceAlignedScales", lambda I, f: Mat(3, 1, [A.var("fs%d_%d" % (f, p), positive=True) for p in range(3)]), len(FACES))
    S.f["faceMajorCoordScale"] = Arr("faceMajorCoordScale", lambda I, f: Mat(3, 3, [A.var("fm%d_%d" % (f, p)) for p in range(9)]), len(FACES))
    fs = [f for f in P.by_q.get(VR + "::FFaceFunctional", []) if not f.dep and f.body and ("VariationalReconstruction<%d>" % dim) in f.key
          and "<Eigen::Matrix<double, -1, -1, 0, -1, -1>, Eigen::Matrix<double, -1, -1, 0, -1, -1>>" in f.key]
    if not fs:
        raise AnalysisError("FFaceFunctional of two matrices is not instantiated any more")
    fn = fs[0]
    q = [g for g in P.globals if g.endswith("Base::diffOperatorOrderList" + ("2D" if dim == 2 else ""))]
    T = [tuple(r + [0] * (3 - len(r))) for r in I.pylist(I.glob(q[0]))][:nd]
    a = [[A.var("da%d_%d" % (i, j)) for j in range(2)] for i in range(nd)]
    b = [[A.var("db%d_%d" % (i, j)) for j in range(1)] for i in range(nd)]
    fa = 2
    v = I.call(fn, [I.store(Mat(nd, 2, [x for r in a for x in r])), I.store(Mat(nd, 1, [x for r in b for x in r])), I.store(A.const(fa)), I.store(A.const(1)), I.store(A.const(0))], this=S)
    R.count("functionals")
    sc = [A.var("fs%d_%d" % (fa, p), positive=True) for p in range(dim)]
    l2 = sum((x * x for x in sc), A.const(0)) * A.const(opts.get("functionalSettings.scaleMultiplier", 0)) ** 2
    if opts["functionalSettings.scaleType"] == enum(P, "ScaleType", "MeanAACBB"):
        l2 = l2 / dim
    fac = [1, 1, 2, 6]
    want = []
    for j in range(2):
        t = A.const(0)
        for i, m in enumerate(T):
            k = sum(m)
            w = A.var("fw%d_%d" % (fa, k))
            mult = Fraction(fac[k], fac[m[0]] * fac[m[1]] * fac[m[2]])
            t = t + a[i][j] * b[i][0] * w * w * mult * (l2 ** k)
        want.append(t)
    Cmp(R, S, "%dD %s, %d derivatives" % (dim, o, nd), fn.loc())("func|%d" % dim, col(I, v), want, "the face functional is not the weighted contraction of the derivatives")


def gradient(R, P, dim, method, scheme):
    """DoReconstruction2ndGrad: Green-Gauss gradients"""
    S = Sim(P, dim, {2: 5, 3: 7}[dim], {2: 2, 3: 3}[dim], opts={"subs2ndOrderGGScheme": scheme})
    vr_hooks(S)
    I, M, A = S.I, S.M, S.A
    I.gcache["DNDS::verySmallReal"] = I.store(A.const(0))
    fn = fnof(P, dim, "DoReconstruction2ndGrad")
    C = Cmp(R, S, "%dD method %d scheme %d" % (dim, method, scheme), fn.loc())
    u = Arr("u", lambda I, c: M.col("u%d" % c, S.nv), NP, S.nv)
    out = Arr("uGrad", unset(dim, S.nv), NP)
    invs = []

    def matinv(m):
        invs.append(m)
        return Mat(m.r, m.c, [A.var("MI%d_%d" % (len(invs) - 1, i)) for i in range(m.r * m.c)])
    I.matinv = matinv
    I.call(fn, [out, u, S.fb(False), A.const(method)], this=S)
    R.count("gradients")
    dist = lambda x, y: qsqrt(sum(((p - q) * (p - q) for p, q in zip(x, y)), A.const(0)))
    for c in range(NC):
        g = [[A.const(0)] * S.nv for _ in range(dim)]
        fl = M.c2f[c]
        n = dim + len(fl)
        Mx = [[A.const(int(i == j < dim)) for j in range(n)] for i in range(n)]
        bx = [[A.const(0)] * S.nv for _ in range(n)]
        for j, f in enumerate(fl):
            o, s = S.other(c, f), S.side(c, f)
            sg = 1 - 2 * s
            nn = [x * sg for x in M.vec_f2c(f, s, M.norm(f, -1))][:dim]
            xf, xb = M.pt_f2c(f, s, M.fpt(f, -1)), M.bary(c)
            if o is None:
                ub = S.bval("bv", S.u(c) + S.u(c) + [A.const(c), A.const(-1)] + M.norm(f, -1)[:dim] + M.fpt(f, -1)[:dim], f)
                du, su = [(x - y) * F(1, 2) for x, y in zip(ub, S.u(c))], [x + y for x, y in zip(ub, S.u(c))]
                dx = [A.const(0)] * dim
            else:
                uo = S.toown(c, f, [S.u(o)])[0]
                xo = M.pt_f2c(f, s, M.pt_c2f(f, 1 - s, M.bary(o)))
                lt, lo = (dist(xf, xb), dist(xo, xf)) if scheme else (A.const(1), A.const(1))
                du, su = [(x - y) * lt / (lt + lo) for x, y in zip(uo, S.u(c))], [x + y for x, y in zip(uo, S.u(c))]
                dx = [x + y - z * 2 for x, y, z in zip(xb, xo, xf)][:dim]
            for i in range(dim):
                g[i] = [x + y * nn[i] * M.area(f) / M.vol(c) for x, y in zip(g[i], du)]
                Mx[i][dim + j] = -nn[i] * M.area(f) / M.vol(c)
                Mx[dim + j][i] = dx[i]
            Mx[dim + j][dim + j] = A.const(2)
            bx[dim + j] = su
        if method == 11:
            C("system", invs[c].v, Mx, "the system of cell gradient and face values (Gauss rule, face values linear between the cells)")
            I2 = [[A.var("MI%d_%d" % (c, i * n + j)) for j in range(n)] for i in range(dim)]
            g = S.mm(I2, bx)
        C("gradient|%d" % method, col(I, out.at(I, c)), g, "the gradient of a cell is not the Gauss rule over its faces")
