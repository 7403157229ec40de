"""Abstract finite-volume environment: a mesh of a few cells and faces of every kind (interior, ghost, boundary,
periodic main and donor) with formal geometry and formal states, on which the repository's evaluators are analysed."""
from absint import *
from gaslib import differs


class NoOp(Obj):
    """object whose methods have no effect the analysis looks at; calls are recorded by name"""

    def __init__(self, log=None, tag=""):
        self.log, self.tag = log, tag

    def meth(self, I, fr, n, nm, args):
        for a in args:
            I.ev(fr, a)
        if self.log is not None:
            self.log.append((self.tag, nm))
        return self

    def fld(self, I, fr, n):
        return NoOp(self.log, self.tag + "." + n["n"])


class Arr(Obj):
    """array over entities: element (key) made on first use"""

    def __init__(self, name, make, size, rows=None, log=None, cols=None):
        self.name, self.make, self.size, self.rows, self.log = name, make, size, rows, log
        self.cols = cols
        self.d = {}

    def at(self, I, *key):
        if key not in self.d:
            v = self.make(I, *key)
            self.d[key] = v if isinstance(v, LV) else I.store(v)
        c = self.d[key]
        if c.c not in I.heap:
            raise Undecided("%s element made on another path" % self.name)
        return c

    def idx(self, I, fr, n, args):
        k = [I.int(a) for a in args]
        if not 0 <= k[0] < self.size:
            raise I.broken("%s[%d] is out of range (%d entities)" % (self.name, k[0], self.size))
        c = self.at(I, *k)
        v = I.rv(c)
        return v if isinstance(v, View) else c        # rows of matrices are maps: a copy of the map is the same row

    def meth(self, I, fr, n, nm, args):
        if nm in ("operator[]", "operator()", "at"):
            return self.idx(I, fr, n, [I.ev(fr, a) for a in args])
        if nm in ("Size", "size"):
            return I.A.const(self.size)
        if nm in ("MatRowSize",):
            return I.A.const(self.rows)
        if nm == "RowSize" and self.cols is not None:
            return I.A.const(self.cols)
        if nm == "getMPI":
            return NoOp()
        return NotImplemented

    def fld(self, I, fr, n):
        if n["n"] == "father":
            return self
        if n["n"] in ("trans",):
            return NoOp(self.log, self.name)
        return Obj.fld(self, I, fr, n)


class Row(Obj):
    """read-only row of an adjacency"""

    def __init__(self, vals):
        self.v = list(vals)

    def idx(self, I, fr, n, args):
        k = I.int(args[0])
        if not 0 <= k < len(self.v):
            raise I.broken("adjacency row of %d entries indexed with %d" % (len(self.v), k))
        return I.A.const(self.v[k])

    def meth(self, I, fr, n, nm, args):
        if nm in ("size", "Size"):
            return I.A.const(len(self.v))
        if nm in ("operator[]", "operator()", "at"):
            return self.idx(I, fr, n, [I.ev(fr, a) for a in args])
        if nm in ("begin", "end", "cbegin", "cend"):
            return Ptr([I.store(I.A.const(x)) for x in self.v], len(self.v) if "end" in nm else 0)
        return NotImplemented

    def items(self, I):
        return [I.A.const(x) for x in self.v]


class Settings(Obj):
    """configuration: the listed options, zero/false elsewhere"""

    def __init__(self, values, path="", dflt=None):
        self.v, self.path = values, path
        self.made = {}

    def fld(self, I, fr, n):
        p = self.path + n["n"]
        if p not in self.made:
            if p in self.v:
                x = self.v[p]
                self.made[p] = x if isinstance(x, (LV, Obj)) else I.store(x)
            else:
                t = re.sub(r"\bconst\b|&", "", I.P.type(fr.fn, n)).strip()
                if INT_T.match(t) or t in ("double", "float") or "Type" in t.rsplit("::", 1)[-1] and t not in I.P.records:
                    self.made[p] = I.store(I.A.const(0))
                else:
                    s = Settings(self.v, p + ".")
                    self.made[p] = s
        return self.made[p]

    def meth(self, I, fr, n, nm, args):
        p = self.path + nm + "()"
        if p in self.v:
            for a in args:
                I.ev(fr, a)
            return self.v[p]
        return NotImplemented


class Quad(Obj):
    def __init__(self, M, key, npts):
        self.M, self.key, self.npts = M, key, npts

    def fld(self, I, fr, n):
        if n["n"] == "int_scheme":
            return I.A.const(self.npts)
        if n["n"] == "ps":
            return self
        return Obj.fld(self, I, fr, n)

    def meth(self, I, fr, n, nm, args):
        if nm == "GetNumPoints":
            return I.A.const(self.npts)
        if nm in ("IntegrationSimple", "GetQuadraturePointInfo", "Integration"):
            return NotImplemented
        return Obj.meth(self, I, fr, n, nm, args)

    def w(self, g):
        return self.M.A.var("w_%s_%d" % (self.key, g), positive=True)


MAXI = -(2 ** 63)


class Model:
    """faces: list of (left cell, right cell or None, zone). Cells 0..nCell-1 owned, up to nCellProc ghosts."""

    def __init__(self, P, dim, gdim, nvars, faces, ncell, nproc, nface, nrec=2, nquad=2):
        self.P, self.dim, self.gdim, self.nv = P, dim, gdim, nvars
        self.I = I = Interp(P)
        self.A = A = I.A
        self.faces, self.ncell, self.nproc, self.nface = faces, ncell, nproc, nface
        self.nrec, self.nquad = nrec, nquad
        un = P.globals.get("DNDS::UnInitIndex")
        self.none = I.int(I.glob("DNDS::UnInitIndex")) if un else MAXI
        self.log = []
        self.c2f = [[f for f, (l, r, z) in enumerate(faces) if c in (l, r)] for c in range(nproc)]
        # periodic transformations: exact orthogonal matrices
        F = Fraction
        R1 = [F(3, 5), F(-4, 5), F(0), F(4, 5), F(3, 5), F(0), F(0), F(0), F(1)]
        R2 = [F(5, 13), F(12, 13), F(0), F(-12, 13), F(5, 13), F(0), F(0), F(0), F(1)]
        if gdim == 3:
            R1 = [F(2, 3), F(-1, 3), F(2, 3), F(2, 3), F(2, 3), F(-1, 3), F(-1, 3), F(2, 3), F(2, 3)]
            R2 = [F(3, 5), F(0), F(-4, 5), F(0), F(1), F(0), F(4, 5), F(0), F(3, 5)]
        ident = [F(int(i == j)) for i in range(3) for j in range(3)]
        cz = lambda m: [A.const(x) for x in m]
        self.rot = {1: cz(R1), 2: cz(R2), 3: cz(R1)}
        self.tra = {k: [A.const(F(k + i, 7)) for i in range(3)] for k in (1, 2, 3)}
        self.cen = {k: [A.const(F(2 * k - i, 5)) for i in range(3)] for k in (1, 2, 3)}
        if gdim == 2:
            for k in (1, 2, 3):
                self.tra[k][2] = self.cen[k][2] = A.const(0)
        per = Rec("DNDS::Geom::Periodicity", {
            "rotation": Seq_([Mat(3, 3, cz(ident))] + [Mat(3, 3, self.rot[k]) for k in (1, 2, 3)]),
            "translation": Seq_([Mat(3, 1, cz([0, 0, 0]))] + [Mat(3, 1, self.tra[k]) for k in (1, 2, 3)]),
            "rotationCenter": Seq_([Mat(3, 1, cz([0, 0, 0]))] + [Mat(3, 1, self.cen[k]) for k in (1, 2, 3)])})
        self.per = I.store(per)
        self.mesh = Mesh(self)
        self.vfv = VFV(self)
        I.hooks.update({
            "DNDS::PerformanceTimer::Instance": lambda I, fr, n, a: NoOp(),
            "DNDS::Geom::Elem::GetQuadraturePoint": self.h_qpoint,
            "DNDS::Geom::Elem::detail::GetQuadraturePoint": self.h_qpoint,
        })

    def h_qpoint(self, I, fr, n, a):
        q = I.rv(a[0])
        g = I.int(a[2])
        if not isinstance(q, Quad):
            raise Undecided("quadrature point of an unknown rule")
        if not 0 <= g < q.npts:
            raise I.broken("quadrature point %d of a rule with %d points" % (g, q.npts))
        I.assign(a[4], q.w(g))
        return None

    # -------------------------------------------------- formal values
    def vec(self, name, n, positive=False):
        return [self.A.var("%s_%d" % (name, k), positive) for k in range(n)]

    def col(self, name, n):
        return Mat(n, 1, self.vec(name, n))

    def pt(self, name):
        v = self.vec(name, self.gdim)
        return v + [self.A.const(0)] * (3 - self.gdim)

    # -------------------------------------------------- reference geometry
    def zone(self, f):
        return self.faces[f][2]

    def pk(self, f):
        """(periodic index, +1 main / -1 donor) or None"""
        z = self.zone(f)
        if -3 <= z <= -1:
            return -z, 1
        if -6 <= z <= -4:
            return -z - 3, -1
        return None

    def mv(self, m, v, n, t=False):
        out = []
        for i in range(n):
            s = self.A.const(0)
            for j in range(n):
                s = s + (m[j * 3 + i] if t else m[i * 3 + j]) * v[j]
            out.append(s)
        return out

    def vec_f2c(self, f, side, v):
        """vector in the face's frame -> frame of the cell on that side"""
        p = self.pk(f)
        if side == 0 or p is None:
            return list(v)
        return self.mv(self.rot[p[0]], v, len(v), t=p[1] < 0)

    def vec_c2f(self, f, side, v):
        p = self.pk(f)
        if side == 0 or p is None:
            return list(v)
        return self.mv(self.rot[p[0]], v, len(v), t=p[1] > 0)

    def pt_f2c(self, f, side, v):
        p = self.pk(f)
        if side == 0 or p is None:
            return list(v)
        k, s = p
        if s > 0:
            w = self.mv(self.rot[k], [x - c for x, c in zip(v, self.cen[k])], 3)
            return [x + c + t for x, c, t in zip(w, self.cen[k], self.tra[k])]
        w = self.mv(self.rot[k], [x - t - c for x, c, t in zip(v, self.cen[k], self.tra[k])], 3, t=True)
        return [x + c for x, c in zip(w, self.cen[k])]

    def pt_c2f(self, f, side, v):
        p = self.pk(f)
        if side == 0 or p is None:
            return list(v)
        k, s = p
        if s < 0:
            w = self.mv(self.rot[k], [x - c for x, c in zip(v, self.cen[k])], 3)
            return [x + c + t for x, c, t in zip(w, self.cen[k], self.tra[k])]
        w = self.mv(self.rot[k], [x - t - c for x, c, t in zip(v, self.cen[k], self.tra[k])], 3, t=True)
        return [x + c for x, c in zip(w, self.cen[k])]

    def U_c2f(self, f, side, u):
        return [u[0]] + self.vec_c2f(f, side, u[1:self.dim + 1]) + list(u[self.dim + 1:])

    def U_f2c(self, f, side, u):
        return [u[0]] + self.vec_f2c(f, side, u[1:self.dim + 1]) + list(u[self.dim + 1:])

    def U_c2c(self, f, side_from, u):
        return self.U_f2c(f, 1 - side_from, self.U_c2f(f, side_from, u))

    def G_c2f(self, f, side, g, rev=False):
        """gradient (rows d/dx_i, columns variables): both the direction and the momentum vector turn"""
        d = self.dim
        tv = (lambda v: self.vec_f2c(f, side, v)) if rev else (lambda v: self.vec_c2f(f, side, v))
        cols = [tv([g[i][j] for i in range(d)]) for j in range(self.nv)]
        g = [[cols[j][i] for j in range(self.nv)] for i in range(d)]
        return [[r[0]] + tv(r[1:d + 1]) + r[d + 1:] for r in g]

    def norm(self, f, g):
        return self.vec("n%d" % f if g < 0 else "n%dq%d" % (f, g), self.gdim) + [self.A.const(0)] * (3 - self.gdim)

    def fpt(self, f, g):
        return self.pt("xf%d" % f if g < 0 else "xf%dq%d" % (f, g))

    def cpt(self, c, g):
        return self.pt("xc%d" % c if g < 0 else "xc%dq%d" % (c, g))

    def bary(self, c):
        return self.pt("xb%d" % c)

    def vol(self, c):
        return self.A.var("V%d" % c, positive=True)

    def area(self, f):
        return self.A.var("A%d" % f, positive=True)

    def fjac(self, f, g):
        return self.A.var("Jf%dq%d" % (f, g), positive=True)

    def cjac(self, c, g):
        return self.A.var("Jc%dq%d" % (c, g), positive=True)

    def base(self, c, p, diff):
        """row of the reconstruction basis of cell c (without the constant) differentiated, at a point of its own frame"""
        return [self.A.app("@D%d_%d_%d" % (c, diff, k), p[:self.gdim]) for k in range(self.nrec)]

    def frame(self, v):
        return v

    def fq(self, f, o1):
        return Quad(self, "f%d%s" % (f, "o" if o1 else ""), 1 if o1 else self.nquad)

    def cq(self, c, o1):
        return Quad(self, "c%d%s" % (c, "o" if o1 else ""), 1 if o1 else self.nquad)


class Mesh(Obj):
    def __init__(self, M):
        self.M = M
        A = M.A
        c = A.const
        nf, np = len(M.faces), M.nproc

        def f2c(I, f, k=None):
            e = [M.faces[f][0], M.none if M.faces[f][1] is None else M.faces[f][1]]
            return Row(e) if k is None else c(e[k])

        def c2f(I, i, k=None):
            return Row(M.c2f[i]) if k is None else c(M.c2f[i][k])
        info = lambda I, f, k=0: Rec("DNDS::Geom::ElemInfo", {"zone": I.store(c(M.zone(f)))})
        self.f = {"face2cell": Arr("face2cell", f2c, nf), "cell2face": Arr("cell2face", c2f, np),
                  "faceElemInfo": Arr("faceElemInfo", info, nf),
                  "face2bnd": Arr("face2bnd", lambda I, f: c(M.bnds.index(f)), nf),
                  "periodicInfo": M.per, "isPeriodic": True}
        M.bnds = [f for f, x in enumerate(M.faces) if x[1] is None]
        self.n = {"NumCell": M.ncell, "NumCellProc": np, "NumCellGhost": np - M.ncell, "NumFace": M.nface, "NumFaceProc": nf,
                  "NumBnd": len(M.bnds)}

    def fld(self, I, fr, n):
        if n["n"] in self.f:
            return self.f[n["n"]]
        return Obj.fld(self, I, fr, n)

    def meth(self, I, fr, n, nm, args):
        if nm in self.n:
            return I.A.const(self.n[nm])
        if nm == "getMPI":
            return MPIInfo(self.M)
        return NotImplemented


class MPIInfo(Obj):
    def __init__(self, M):
        self.M = M

    def fld(self, I, fr, n):
        if n["n"] in ("rank",):
            return I.A.const(1)
        return Top("communicator")


class VFV(Obj):
    def __init__(self, M):
        self.M = M
        nf, np = len(M.faces), M.nproc
        m3 = lambda v: Mat(3, 1, list(v))
        self.f = {
            "mesh": M.mesh,
            "faceUnitNorm": Arr("faceUnitNorm", lambda I, f, g: m3(M.norm(f, g)), nf),
            "faceMeanNorm": Arr("faceMeanNorm", lambda I, f: m3(M.norm(f, -1)), nf),
            "faceIntPPhysics": Arr("faceIntPPhysics", lambda I, f, g: m3(M.fpt(f, g)), nf),
            "faceCent": Arr("faceCent", lambda I, f: m3(M.fpt(f, -1)), nf),
            "cellIntPPhysics": Arr("cellIntPPhysics", lambda I, c, g: m3(M.cpt(c, g)), np),
            "cellCent": Arr("cellCent", lambda I, c: m3(M.cpt(c, -1)), np),
            "cellBary": Arr("cellBary", lambda I, c: m3(M.bary(c)), np),
            "volumeLocal": Arr("volumeLocal", lambda I, c, k=0: M.vol(c), np),
            "faceArea": Arr("faceArea", lambda I, f, k=0: M.area(f), nf),
            "faceIntJacobiDet": Arr("faceIntJacobiDet", lambda I, f, g: M.fjac(f, g), nf),
            "cellIntJacobiDet": Arr("cellIntJacobiDet", lambda I, c, g: M.cjac(c, g), np),
            "faceAtr": Arr("faceAtr", lambda I, f: Rec("RecAtr", {"NDIFF": I.store(I.A.const(20 if M.gdim == 3 else 10)), "NDOF": I.store(I.A.const(M.nrec + 1))}), nf),
            "cellAtr": Arr("cellAtr", lambda I, c: Rec("RecAtr", {"NDIFF": I.store(I.A.const(20 if M.gdim == 3 else 10)), "NDOF": I.store(I.A.const(M.nrec + 1))}), np),
            "settings": Settings({}),
        }
        self.over = {}

    def fld(self, I, fr, n):
        if n["n"] in self.f:
            return self.f[n["n"]]
        return Obj.fld(self, I, fr, n)

    def meth(self, I, fr, n, nm, args):
        M = self.M
        if nm in self.over:
            return self.over[nm](I, fr, n, args)
        if nm in ("GetFaceQuad", "GetFaceQuadO1"):
            return M.fq(I.int(I.ev(fr, args[0])), nm.endswith("O1"))
        if nm in ("GetCellQuad", "GetCellQuadO1"):
            return M.cq(I.int(I.ev(fr, args[0])), nm.endswith("O1"))
        if nm == "FDiffBaseValue":
            a = [I.ev(fr, x) for x in args]
            v = I.rv(a[0])
            p = I.mat(a[1]).v
            c = I.int(a[2])
            for d in range(v.r):
                row = [I.A.const(int(d == 0))] + M.base(c, p, d)
                for k in range(v.c):
                    I.heap[v.ids[d * v.c + k]] = row[k]
            return None
        return NotImplemented


def col(I, x):
    """list of the entries of a vector or matrix value"""
    m = I.mat(x)
    if not isinstance(m, Mat):
        raise Undecided("value is not a matrix: %r" % (m,))
    return m.v


def eigen_types(P):
    """the formatted-output wrapper of Eigen matrices is an Eigen matrix"""
    for t in P.tus:
        t.types = [x.replace("Eigen::MatrixFMTSafe<", "Eigen::Matrix<") for x in t.types]
    for k in [k for k in P.records if k.startswith("Eigen::MatrixFMTSafe<")]:
        del P.records[k]
    for k in [k for k, f in P.fns.items() if f.q.startswith("Eigen::MatrixFMTSafe")]:
        del P.fns[k]
    return P
