"""P15: the implicit operator and its sweeps; local time steps."""
from prog import *
from fvmodel import *
from report import run_jobs
from evcommon import *
from fractions import Fraction as F

FACES = [(0, 1, -1), (0, None, BCZ), (1, 2, 0), (2, 0, -5), (3, 2, 0), (2, 3, -2)]
NC, NP = 3, 4
HEAVY = 3


def jname(b):
    return "DNDS::Euler::JacobianDiagBlock<%d>" % b


class Sim(Obj):
    opaque = False

    def __init__(S, P, model, roe=0, block=0, rot=False, opts=None):
        S.P, S.model = P, model
        S.dim, S.gdim, S.nv = dim, gdim, nv = DIMS[model]
        S.M = M = Model(P, dim, gdim, nv, FACES, NC, NP, len(FACES) - 1)
        S.I, S.A = I, A = M.I, M.A
        S.roe, S.block = roe, block
        S.bcenum = dict(P.enums["DNDS::Euler::EulerBCType"]["c"])
        S.bctype, S.intopt = S.bcenum["BCWall"], 0
        S.gamma = A.var("gamma", positive=True)
        sv = {"idealGasProperty.gamma": S.gamma, "idealGasProperty.muGas": A.var("muGas", positive=True), "useRoeJacobian": A.const(roe),
              "idealGasProperty.CpGas": A.var("Cp", positive=True), "idealGasProperty.prGas": A.var("Pr", positive=True)}
        sv.update({k: A.const(int(v)) for k, v in (opts or {}).items()})
        S.opts = opts or {}
        S.rot = rot
        if rot:
            S.rotw, S.rotc = M.vec("om", 3), M.vec("rc", 3)
            sv.update({"frameConstRotation.enabled": A.const(1), "frameConstRotation.center": Mat(3, 1, S.rotc), "frameConstRotation.vOmega()": Mat(3, 1, S.rotw)})
        fv = lambda n: Arr(n, lambda I, f: A.var("%s_%d" % (n, f), positive=True), len(FACES))
        S.al = A.var("alphaDiag", positive=True)
        S.f = {"mesh": M.mesh, "vfv": M.vfv, "pBCHandler": BCs(S), "settings": Settings(sv), "nVars": I.store(A.const(nv)), "symLU": Sym(S)}
        for n in ("lambdaFace", "lambdaFaceC", "lambdaFaceVis", "lambdaFace0", "lambdaFace123", "lambdaFace4", "deltaLambdaFace"):
            S.f[n] = fv(n)
        M.mesh.f["cell2cellFaceVLocal"] = Arr("cell2cellFaceVLocal", lambda I, c: Row(S.c2c(c)), NC)
        I.hooks["DNDS::MPI::Allreduce"] = S.h_allreduce

    def h_allreduce(S, I, fr, n, a):
        s, d, k = I.rv(a[0]), I.rv(a[1]), I.int(a[2])
        for i in range(k):
            I.assign(d.e[d.o + i] if isinstance(d, Ptr) else d, I.q(s.e[s.o + i] if isinstance(s, Ptr) else s))
        return None

    def c2c(S, c):
        out = []
        for l, r, z in FACES:
            for a, b in ((l, r), (r, l)):
                if a == c and b is not None and b < NC and b not in out:
                    out.append(b)
        return sorted(out, reverse=True)

    def fld(S, I, fr, n):
        if n["n"] in S.f:
            return S.f[n["n"]]
        return Obj.fld(S, I, fr, n)

    # ------------------------------------------ the flux derivative as an uninterpreted matrix of its arguments
    def J(S, tag, args):
        return [[S.A.app("@J%s_%d_%d" % (tag, i, j), args) for j in range(S.nv)] for i in range(S.nv)]

    def Jd(S, tag, args, du):
        """the product with an increment, kept as one symbol"""
        return [S.A.app("@K%s_%d" % (tag, i), args + list(du)) for i in range(S.nv)]

    def meth(S, I, fr, n, nm, args):
        if nm in ("fluxJacobian0_Right_Times_du", "fluxJacobian0_Right_Times_du_AsMatrix"):
            a = [I.ev(fr, x) for x in args]
            du = None
            if nm.endswith("du"):
                du = col(I, a.pop(5))
            ar = col(I, a[0]) + col(I, a[1]) + col(I, a[2]) + col(I, a[3])
            ex = [I.q(x) for x in a[5:11]]
            roe, sg, om = I.int(a[11]), (I.int(a[12]) if len(a) > 12 else -1), (I.int(a[13]) if len(a) > 13 else 0)
            if du is not None and S.opaque:
                return Mat(S.nv, 1, S.Jd("%d_%d_%d" % (int(bool(roe)), sg, om), ar + ex, du))
            J = S.J("%d_%d_%d" % (int(bool(roe)), sg, om), ar + ex)
            if du is None:
                return Mat(S.nv, S.nv, [x for r in J for x in r])
            return Mat(S.nv, 1, [sum((J[i][j] * du[j] for j in range(S.nv)), S.A.const(0)) for i in range(S.nv)])
        if nm == "fluxJacobianC_Right_Times_du":
            a = [I.ev(fr, x) for x in args]
            du = col(I, a[4])
            J = S.J("C", col(I, a[0]) + col(I, a[1]) + col(I, a[2]))
            return Mat(S.nv, 1, [sum((J[i][j] * du[j] for j in range(S.nv)), S.A.const(0)) for i in range(S.nv)])
        return NotImplemented

    # ------------------------------------------ arrays
    def dof(S, name, n=None):
        return Arr(name, lambda I, c: S.M.col("%s%d" % (name, c), n or S.nv), NP, n or S.nv)

    def vec(S, name, c):
        return S.M.vec("%s%d" % (name, c), S.nv)

    def diag(S, c):
        """what the Jacobian object holds, formal: diagonal entries and, in block mode, two entries off the diagonal"""
        d = [[S.A.const(0)] * S.nv for _ in range(S.nv)]
        for i in range(S.nv):
            d[i][i] = S.A.var("D%d_%d" % (c, i), positive=True)
        if S.block:
            d[0][S.nv - 1] = S.A.var("D%d_a" % c)
            d[1][0] = S.A.var("D%d_b" % c)
        return d

    def jac(S, filled=True, name="D"):
        I, A, nv = S.I, S.A, S.nv
        un = Top("inverse read before it was computed")
        mk = lambda sq, fill: Arr(name, lambda I, c: Mat(nv, nv if sq else 1, fill(c, sq)), NC)
        held = lambda c, sq: [S.diag(c)[i][j] for i in range(nv) for j in (range(nv) if sq else (i,))]
        other = lambda c, sq: [A.var("stale%d_%d" % (c, k)) for k in range(nv * (nv if sq else 1))]
        unset = lambda c, sq: [un] * (nv * (nv if sq else 1))
        fl = held if filled else other
        r = Rec(jname(nv), {"_data": mk(True, fl if S.block else unset), "_dataInvert": mk(True, unset), "_dataDiag": mk(False, unset if S.block else fl),
                            "_dataDiagInvert": mk(False, unset), "hasInvert": I.store(False), "_mode": I.store(A.const(S.block))})
        return I.store(r)

    def jsrc(S):
        I, A, nv = S.I, S.A, S.nv
        ent = lambda c, sq: [A.var("js%d_%d_%d" % (c, i, j)) for i in range(nv) for j in (range(nv) if sq else (i,))]
        mk = lambda sq: Arr("JSource", lambda I, c: Mat(nv, nv if sq else 1, ent(c, sq)), NC)
        return I.store(Rec(jname(nv), {"_data": mk(True), "_dataInvert": mk(True), "_dataDiag": mk(False), "_dataDiagInvert": mk(False),
                                       "hasInvert": I.store(False), "_mode": I.store(A.const(S.block))}))

    def call(S, name, args):
        fn = [f for f in S.P.by_q.get(EV + "::" + name, []) if not f.dep and f.body]
        if not fn:
            raise AnalysisError("EulerEvaluator::%s is not there any more" % name)
        S.fn = fn[0]
        S.I.call(fn[0], args, this=S)
        return fn[0]

    # ------------------------------------------ reference
    def nbrs(S, c):
        """(face, side, other) of a cell"""
        out = []
        for f, (l, r, z) in enumerate(FACES):
            if l == c:
                out.append((f, 0, r))
            if r == c:
                out.append((f, 1, l))
        return out

    def nout(S, f, side):
        v = S.M.vec_f2c(f, side, S.M.norm(f, -1)[:S.dim])
        return [-x for x in v] if side else v

    def vgc(S, f, side):
        if not S.rot:
            return [S.A.const(0)] * S.dim
        x = [a - b for a, b in zip(S.M.pt_f2c(f, side, S.M.fpt(f, -1)), S.rotc)]
        w = S.rotw
        return [w[1] * x[2] - w[2] * x[1], w[2] * x[0] - w[0] * x[2], w[0] * x[1] - w[1] * x[0]][:S.dim]

    def lam(S, f, side):
        v = lambda n: S.A.var("%s_%d" % (n, f), positive=True)
        a, b = ("lambdaFace4", "lambdaFace0") if side else ("lambdaFace0", "lambdaFace4")
        return [v("lambdaFace"), v("lambdaFaceC"), v("lambdaFaceVis"), v(a), v("lambdaFace123"), v(b)]

    def K(S, c, f, side, o):
        """off-diagonal block in the frame of cell c, acting on the neighbour's increment in its own frame"""
        M = S.M
        uj = M.U_c2c(f, 1 - side, S.vec("u", o))
        J = S.J("%d_-1_0" % S.roe, uj + S.vec("u", c) + S.nout(f, side) + S.vgc(f, side) + S.lam(f, side))
        k = S.al / 2 * M.area(f) / M.vol(c)
        return J, k

    def Kx(S, c, f, side, o, x):
        y = S.M.U_c2c(f, 1 - side, x)
        if S.opaque:
            uj = S.M.U_c2c(f, 1 - side, S.vec("u", o))
            k = S.al / 2 * S.M.area(f) / S.M.vol(c)
            return [k * z for z in S.Jd("%d_-1_0" % S.roe, uj + S.vec("u", c) + S.nout(f, side) + S.vgc(f, side) + S.lam(f, side), y)]
        J, k = S.K(c, f, side, o)
        return [k * sum((J[i][j] * y[j] for j in range(S.nv)), S.A.const(0)) for i in range(S.nv)]

    def mv(S, D, x):
        return [sum((D[i][j] * x[j] for j in range(S.nv)), S.A.const(0)) for i in range(S.nv)]


class Sym(Obj):
    def __init__(s, S):
        s.S = S
        s.pos = Arr("cell2cellFaceVLocal2FullRowPos", lambda I, c: Row([1 + S.c2c(c).index(x) for x in sorted(S.c2c(c))] if 0 else [7 + 2 * k for k in range(len(S.c2c(c)))]), NC)

    def fld(s, I, fr, n):
        if n["n"] == "cell2cellFaceVLocal2FullRowPos":
            return s.pos
        return Obj.fld(s, I, fr, n)


class LU(Obj):
    """the sparse factorisation: records what is stored and solved"""

    def __init__(s, S):
        s.S, s.st = S, []
        nv = S.nv
        s.ldu = Arr("LDU", lambda I, c, k: Mat(nv, nv, [Top("unset block")] * (nv * nv)), NC)

    def fld(s, I, fr, n):
        if n["n"] == "LDU":
            return s.ldu
        return Obj.fld(s, I, fr, n)

    def meth(s, I, fr, n, nm, args):
        a = [I.ev(fr, x) for x in args]
        if nm == "setZero":
            s.st.append("zero")
            if s.ldu.d:
                raise I.broken("blocks cleared after they were set")
            return None
        if nm == "GetDiag":
            return I.rv(s.ldu.idx(I, fr, n, [a[0], I.A.const(0)]))
        if nm == "InPlaceDecompose":
            s.st.append("decompose")
            return None
        if nm == "Solve":
            s.b, s.x = I.rv(a[0]), I.rv(a[1])
            s.bv = [col(I, s.b.at(I, c)) for c in range(NC)]
            for c in range(NC):
                I.assign(s.x.at(I, c), Mat(s.S.nv, 1, s.S.vec("sol", c)))
            s.st.append("solve")
            return None
        return NotImplemented


def solve_block(S, D, b):
    """D x = b with the sparse formal D of Sim.diag"""
    nv = S.nv
    x = [None] * nv
    # D: diagonal + (0, nv-1) + (1, 0)
    x[nv - 1] = b[nv - 1] / D[nv - 1][nv - 1]
    x[0] = (b[0] - D[0][nv - 1] * x[nv - 1]) / D[0][0]
    for i in range(1, nv - 1):
        x[i] = (b[i] - (D[1][0] * x[0] if i == 1 else 0)) / D[i][i]
    return x


def matvec(R, P, m, kw):
    S = Sim(P, m, **kw)
    u, du, out = S.dof("u"), S.dof("du"), S.dof("out")
    fn = S.call("LUSGSMatrixVec", [S.al, u, du, S.jac(), out])
    C = Cmp(R, S, tagof(m, kw), fn.loc())
    for c in range(NC):
        w = S.mv(S.diag(c), S.vec("du", c))
        for f, side, o in S.nbrs(c):
            if o is not None:
                w = [x + y for x, y in zip(w, S.Kx(c, f, side, o, S.vec("du", o)))]
        C("matvec", col(S.I, out.at(S.I, c)), w, "LUSGSMatrixVec does not apply the implicit operator (diagonal plus half the face's flux derivative of each neighbour, in the cell's frame)")
    R.count("operators")


def init(R, P, m, kw):
    S = Sim(P, m, **kw)
    A = S.A
    u = S.dof("u")
    dtau = Arr("dTau", lambda I, c: Mat(1, 1, [A.var("dtau%d" % c, positive=True)]), NP)
    jd = S.jac(filled=False)
    dt = A.var("dt", positive=True)
    fn = S.call("LUSGSMatrixInit", [jd, S.jsrc(), dtau, dt, S.al, u, NoOp(), A.const(0), A.var("t")])
    C = Cmp(R, S, tagof(m, kw), fn.loc())
    rec = S.I.rv(jd)
    for c in range(NC):
        tm = 1 / A.var("dtau%d" % c, positive=True) + 1 / dt
        D = [[A.const(0)] * S.nv for _ in range(S.nv)]
        for i in range(S.nv):
            D[i][i] = tm
        for f, side, o in S.nbrs(c):
            k = S.al / 2 * S.M.area(f) / S.M.vol(c)
            if not S.roe:
                for i in range(S.nv):
                    D[i][i] = D[i][i] + k * A.var("lambdaFace_%d" % f, positive=True)
            else:
                uj = S.vec("u", c) if o is None else S.M.U_c2c(f, 1 - side, S.vec("u", o))
                J = S.J("1_1_1", S.vec("u", c) + uj + S.nout(f, side) + S.vgc(f, side) + S.lam(f, side))
                D = [[D[i][j] + k * J[i][j] for j in range(S.nv)] for i in range(S.nv)]
        if not S.opts.get("ignoreSourceTerm"):
            for i in range(S.nv):
                for j in range(S.nv) if S.block else (i,):
                    D[i][j] = D[i][j] + S.al * A.var("js%d_%d_%d" % (c, i, j))
        arr = rec.f["_data"] if S.block else rec.f["_dataDiag"]
        want = [D[i][j] for i in range(S.nv) for j in (range(S.nv) if S.block else (i,))]
        C("init", col(S.I, S.I.rv(arr).at(S.I, c)), want, "LUSGSMatrixInit does not build the diagonal of the implicit operator (time terms, half the spectral radius or flux derivative of each face, source)")
    hi = S.I.rv(rec.f["hasInvert"])
    if hi is not False and not (isinstance(hi, Q) and hi.iszero()):
        R.viol("stale", fn.loc(), "a rebuilt diagonal keeps the old inverse [%s]" % tagof(m, kw))
    R.count("operators")


def sweep(R, P, m, kw, which, alias):
    S = Sim(P, m, **kw)
    S.opaque = True
    I = S.I
    rhs, u, du = S.dof("rhs"), S.dof("u"), S.dof("du")
    new = du if alias else S.dof("new")
    jd = S.jac()
    cur = [S.vec("du", c) for c in range(NP)]
    out = cur if alias else [S.vec("new", c) for c in range(NP)]
    tot = [S.A.const(0)] * S.nv
    if which in ("forward", "backward"):
        fw = which == "forward"
        fn = S.call("UpdateLUSGS" + which.capitalize(), [S.al, rhs, u, du, jd, new])
        for c in (range(NC) if fw else reversed(range(NC))):
            b = S.vec("rhs", c) if fw else [S.A.const(0)] * S.nv
            for f, side, o in S.nbrs(c):
                if o is not None and (o < c if fw else o > c):
                    b = [x - y for x, y in zip(b, S.Kx(c, f, side, o, cur[o]))]
            x = solve_block(S, S.diag(c), b)
            out[c] = x if fw else [a + y for a, y in zip(out[c], x)]
    else:
        fw = which == "sgs_forward"
        s = I.store(Mat(S.nv, 1, [S.A.var("s%d" % k) for k in range(S.nv)]))
        fn = S.call("UpdateSGS", [S.al, rhs, u, du, new, jd, fw, s])
        for c in (range(NC) if fw else reversed(range(NC))):
            b = S.vec("rhs", c)
            for f, side, o in S.nbrs(c):
                if o is not None and o != c:
                    b = [x - y for x, y in zip(b, S.Kx(c, f, side, o, cur[o]))]
            x = solve_block(S, S.diag(c), b)
            tot = [a + qabs(y - z) for a, y, z in zip(tot, x, out[c])]
            out[c] = x
    C = Cmp(R, S, tagof(m, kw), fn.loc())
    for c in range(NC):
        C("sweep|" + which, col(I, new.at(I, c)), out[c], "%s does not solve its part of the implicit operator (%s)" % (fn.name if hasattr(fn, "name") else fn.q, "increments in place" if alias else "separate arrays"))
    if which.startswith("sgs") and not kw.get("roe"):
        C("sgs|sum", col(I, s), tot, "UpdateSGS does not return the sum of the changes")
    R.count("sweeps")


def lu(R, P, m, kw):
    S = Sim(P, m, **kw)
    I, A = S.I, S.A
    u = S.dof("u")
    L = LU(S)
    fn = S.call("LUSGSMatrixToJacobianLU", [S.al, u, S.jac(), L])
    C = Cmp(R, S, tagof(m, kw), fn.loc())
    if L.st != ["zero", "decompose"]:
        R.viol("lu|order", fn.loc(), "sparse Jacobian: %s instead of clear, fill, decompose [%s]" % (L.st, tagof(m, kw)))
    want = {}
    nv = S.nv
    for c in range(NC):
        want[(c, 0)] = [x for r in S.diag(c) for x in r]
        for f, side, o in S.nbrs(c):
            if o is None or o >= NC:
                continue
            J, k = S.K(c, f, side, o)
            cols = []
            for j in range(nv):
                y = S.M.U_c2c(f, 1 - side, [A.const(int(i == j)) for i in range(nv)])
                cols.append([k * sum((J[i][q] * y[q] for q in range(nv)), A.const(0)) for i in range(nv)])
            want[(c, 7 + 2 * S.c2c(c).index(o))] = [cols[j][i] for i in range(nv) for j in range(nv)]
    for k in set(L.ldu.d) - set(want):
        R.viol("lu|extra", fn.loc(), "sparse Jacobian sets block %s which belongs to no neighbour [%s]" % (k, tagof(m, kw)))
    for k, w in want.items():
        if k not in L.ldu.d:
            R.viol("lu|missing", fn.loc(), "sparse Jacobian never sets the block of a neighbour [%s]" % tagof(m, kw))
            continue
        C("lu|block", col(I, L.ldu.d[k]), w, "block of the sparse Jacobian is not the implicit operator's (neighbour's increment in its own frame)")
    R.count("operators")
    S = Sim(P, m, **kw)
    I, A = S.I, S.A
    L = LU(S)
    L.st = ["zero", "decompose"]
    u, rhs, du, new, buf = S.dof("u"), S.dof("rhs"), DofArr(S, "du"), S.dof("new"), S.dof("buf")
    s = I.store(Mat(S.nv, 1, [S.A.var("s%d" % k) for k in range(S.nv)]))
    fn = S.call("LUSGSMatrixSolveJacobianLU", [S.al, rhs, u, du, new, buf, S.jac(), L, s])
    C = Cmp(R, S, tagof(m, kw), fn.loc())
    if "solve" not in L.st or L.x is not new:
        R.viol("lu|solve", fn.loc(), "the sparse solve does not give the new increment [%s]" % tagof(m, kw))
        return
    for c in range(NC):
        b = S.vec("rhs", c)
        for f, side, o in S.nbrs(c):
            if o is not None and o >= NC:
                b = [x - y for x, y in zip(b, S.Kx(c, f, side, o, S.vec("du", o)))]
        C("lu|rhs", L.bv[c], b, "the sparse solve does not move the ghosts' part of the operator to the right-hand side")
        C("lu|x", col(I, new.at(I, c)), S.vec("sol", c), "the sparse solution is not the new increment")
    R.count("sweeps")


class DofArr(Arr):
    """degrees of freedom with whole-array arithmetic"""

    def __init__(s, S, name):
        Arr.__init__(s, name, lambda I, c: S.M.col("%s%d" % (name, c), S.nv), NP, S.nv)
        s.S = S

    def meth(s, I, fr, n, nm, args):
        if nm in ("operator-=", "operator+="):
            o = I.rv(I.ev(fr, args[0]))
            for c in range(NC):
                a, b = col(I, s.at(I, c)), col(I, o.at(I, c))
                I.assign(s.at(I, c), Mat(len(a), 1, [x - y if nm == "operator-=" else x + y for x, y in zip(a, b)]))
            return s
        if nm == "componentWiseNorm1":
            return Mat(s.S.nv, 1, [sum((qabs(col(I, s.at(I, c))[k]) for c in range(NC)), I.A.const(0)) for k in range(s.S.nv)])
        return Arr.meth(s, I, fr, n, nm, args)


class Kern(Sim):
    """the evaluator with the flux derivative analysed itself"""

    def meth(S, I, fr, n, nm, args):
        if nm in ("muEff", "getMuTur"):
            a = [I.ev(fr, x) for x in args]
            if nm == "muEff":
                return S.muEff(col(I, a[0]), I.q(a[1]))
            return S.muTur(col(I, a[0]), col(I, a[1]), I.q(a[2]), I.q(a[3]), I.int(a[4]))
        return NotImplemented

    def muEff(S, U, T):
        return S.A.app("@mu", list(U) + [T], True)

    def muTur(S, U, G, ref, mu, f):
        return S.A.app("@mut%d" % f, list(U) + list(G) + [ref, mu], True)


def fluxder(S, U, dU, n, vg):
    """derivative of the flux through a moving face along dU, all variables"""
    A, d = S.A, S.dim
    rho = U[0]
    v = [U[i + 1] / rho for i in range(d)]
    dot = lambda a, b: sum((x * y for x, y in zip(a, b)), A.const(0))
    dv = [(dU[i + 1] - v[i] * dU[0]) / rho for i in range(d)]
    vn, dvn, vgn = dot(v, n), dot(dv, n), dot(vg, n)
    g1 = S.gamma - 1
    p = g1 * (U[d + 1] - rho * dot(v, v) / 2)
    dp = g1 * (dU[d + 1] - dot(v, dU[1:d + 1]) + dot(v, v) / 2 * dU[0])
    F = [dU[0] * (vn - vgn) + rho * dvn]
    F += [dU[i + 1] * (vn - vgn) + U[i + 1] * dvn + dp * n[i] for i in range(d)]
    F += [dU[d + 1] * (vn - vgn) + U[d + 1] * dvn + dp * vn + p * dvn]
    F += [dU[k] * (vn - vgn) + U[k] * dvn for k in range(d + 2, S.nv)]
    return F


def kernel(R, P, m, nm, roe, sign, omit):
    S = Kern(P, m)
    I, A, M, nv, d = S.I, S.A, S.M, S.nv, S.dim
    U = [A.var("U0", positive=True)] + M.vec("U", nv)[1:]
    O = [A.var("O0", positive=True)] + M.vec("O", nv)[1:]
    dU, n, vg = M.vec("dU", nv), M.vec("nn", d), M.vec("vg", d)
    l = [A.var("l%d" % k, positive=True) for k in range(6)]

    def h_avg(I, fr, nn, a):
        x = col(I, a[0]) + col(I, a[1])
        I.assign(a[3], Mat(d, 1, [A.app("@rv%d" % k, x) for k in range(d)]))
        for k, q in enumerate(a[4:8]):
            I.assign(q, A.app("@rs%d" % k, x, True))
        return None

    def inc(dU, n, vel, rest):
        return [A.app("@rinc%d" % k, list(dU) + list(n) + list(vel) + list(rest)) for k in range(d + 2)]

    def h_inc(I, fr, nn, a):
        y = inc(col(I, a[0])[:d + 2], col(I, a[1]), col(I, a[2]), [I.q(x) for x in a[3:11]])
        c = col(I, a[11])
        I.assign(a[11], Mat(nv, 1, [c[k] + y[k] if k < d + 2 else c[k] for k in range(nv)]))
        return None
    I.hooks["DNDS::Euler::Gas::GetRoeAverage"] = h_avg
    I.hooks["DNDS::Euler::Gas::RoeFluxIncFDiff"] = h_inc
    v = lambda x: I.store(Mat(len(x), 1, list(x)))
    fn = [f for f in P.by_q.get(EV + "::" + nm, []) if not f.dep and f.body]
    if not fn:
        R.count("not_instantiated")
        return

    def want(dU):
        w = fluxder(S, U, dU, n, vg) if not omit else [A.const(0)] * nv
        if not roe:
            return [x + sign * l[0] * y for x, y in zip(w, dU)]
        x2 = U + O
        y = inc(dU[:d + 2], n, [A.app("@rv%d" % k, x2) for k in range(d)], [A.app("@rs%d" % k, x2, True) for k in range(4)] + [sign * z for z in l[3:6]] + [S.gamma])
        return [w[k] + (y[k] + sign * l[2] * dU[k] if k < d + 2 else sign * l[0] * dU[k]) for k in range(nv)]
    tail = [I.store(x) for x in l] + [A.const(roe), A.const(sign), A.const(omit)]
    if nm == "fluxJacobianC_Right_Times_du":
        r = I.call(fn[0], [v(U), v(n), v(vg), A.const(0), v(dU)], this=S)
        w = fluxder(S, U, dU, n, vg)
    elif nm == "fluxJacobian0_Right_Times_du":
        r = I.call(fn[0], [v(U), v(O), v(n), v(vg), A.const(0), v(dU)] + tail, this=S)
        w = want(dU)
    else:
        r = I.call(fn[0], [v(U), v(O), v(n), v(vg), A.const(0)] + tail, this=S)
        cols = [want([A.const(int(i == j)) for i in range(nv)]) for j in range(nv)]
        w = [cols[j][i] for i in range(nv) for j in range(nv)]
    Cmp(R, S, "%s, Roe term %d, sign %d, omit %d" % (m, roe, sign, omit), fn[0].loc())(nm, col(I, r), w, "%s is not the derivative of the flux (plus dissipation)" % nm)
    R.count("flux_derivatives")


def dt(R, P, m, local, rot):
    S = Kern(P, m, rot=rot)
    I, A, M, nv, d = S.I, S.A, S.M, S.nv, S.dim
    pos = lambda c: [A.var("u%d_0" % c, positive=True)] + M.vec("u%d" % c, nv)[1:]
    u = Arr("u", lambda I, c: Mat(nv, 1, pos(c)), NP, nv)
    rec = lambda c: [[A.var("r%d_%d_%d" % (c, i, j)) for j in range(nv)] for i in range(M.nrec)]
    uRec = Arr("uRec", lambda I, c: Mat(M.nrec, nv, [x for r in rec(c) for x in r]), NP, M.nrec)
    cfl, mx = A.var("CFL", positive=True), A.var("MaxDt", positive=True)
    M.vfv.f["cellSmoothScale"] = Arr("cellSmoothScale", lambda I, c, k=0: A.var("ssr%d" % c, positive=True), NP)
    D = Arr("dt", lambda I, c: Mat(1, 1, [A.var("dt0_%d" % c)]), NC, 1)
    mn = I.store(A.var("dtmin0"))
    fn = S.call("EvaluateDt", [D, u, uRec, cfl, mn, mx, local])
    C = Cmp(R, S, "%s, %s" % (m, "local" if local else "global"), fn.loc())
    dot = lambda a, b: sum((x * y for x, y in zip(a, b)), A.const(0))
    lamf = {}
    for f, (l, r, z) in enumerate(FACES):
        n = M.norm(f, -1)[:d]
        st = []
        for side, c in ((0, l), (1, r)):
            if c is None:
                st.append(st[0])
                continue
            U = M.U_c2f(f, side, pos(c))
            v = [U[i + 1] / U[0] for i in range(d)]
            p = (S.gamma - 1) * (U[d + 1] - U[0] * dot(v, v) / 2)
            x = M.pt_f2c(f, side, M.fpt(f, -1))
            G = [[dot(M.base(c, x, 1 + i), [rec(c)[k][j] for k in range(M.nrec)]) for j in range(nv)] for i in range(S.gdim)]
            G = M.G_c2f(f, side, G + [[A.const(0)] * nv for _ in range(d - S.gdim)])
            st.append((U, v, p, G))
        (UL, vL, pL, GL), (UR, vR, pR, GR) = st
        vg = S.vgc(f, 0)
        um = [(a + b) / 2 for a, b in zip(UL, UR)]
        G = [(a + b) / 2 for x, y in zip(GL, GR) for a, b in zip(x, y)]
        vgn = dot(vg, n)
        sp = lambda U, v, p: qsqrt(S.gamma * p / U[0]) + qabs(dot(v, n) - vgn)
        conv = qmax(sp(UL, vL, pL), sp(UR, vR, pR), "max")
        pm = (pL + pR) / 2
        T = pm / ((S.gamma - 1) / S.gamma * A.var("Cp", positive=True) * um[0])
        mu = S.muEff(um, T)
        mu = mu + S.muTur(um, G, A.var("muGas", positive=True), mu, f)
        lv = mu / um[0] * qmax(A.const(F(4, 3)), S.gamma / A.var("Pr", positive=True), "max")
        vr = M.vol(l if r is None else r)
        vis = lv * M.area(f) * (1 / M.vol(l) + 1 / vr)
        vn = (dot(vL, n) + dot(vR, n)) / 2
        want = {"lambdaFace": conv + vis, "lambdaFaceC": qabs(vn - vgn) + vis, "lambdaFaceVis": vis, "lambdaFace0": conv, "lambdaFace123": conv, "lambdaFace4": conv}
        lamf[f] = conv + vis
        text = {"lambdaFace": "largest wave speed of both sides plus the viscous one", "lambdaFaceC": "mean normal speed plus the viscous one", "lambdaFaceVis": "viscous spectral radius"}
        for k, w in want.items():
            C(k, [I.q(I.rv(S.f[k].at(I, f)))], [w], "%s of a face is not the %s" % (k, text.get(k, "largest wave speed of both sides")))
    dts = []
    for c in range(NC):
        s = sum((lamf[f] * M.area(f) for f, _, _ in S.nbrs(c)), A.const(0))
        dts.append(qmax(cfl * M.vol(c) * A.var("ssr%d" % c, positive=True) / s, mx, "min"))
    tot = dts[0]
    for x in dts[1:]:
        tot = qmax(tot, x, "min")
    C("dtmin", [I.q(mn)], [tot], "the global time step is not the smallest of the cells'")
    for c in range(NC):
        C("dt", col(I, D.at(I, c)), [dts[c] if local else tot], "time step of a cell is not CFL times volume over the sum of its faces' spectral radii, at most the maximum" if local else "with a global time step a cell keeps its own")
    R.count("time_steps")


def tagof(m, kw):
    return ", ".join([m] + ["%s=%s" % (k, v) for k, v in sorted(kw.items()) if v])


def guarded(R, label, f, *a):
    try:
        f(*a)
    except Broken as e:
        R.viol("broken|" + label, e.where, "%s: %s" % (label, e.text))


def run(R, tier):
    R.rule("The builders and users of the implicit operator are interpreted over the extracted syntax tree on a formal mesh (three owned cells, a ghost, interior, boundary and periodic faces); the flux derivative is an "
           "uninterpreted matrix of its arguments; results are compared as rational functions with one definition of the operator")
    models = ["NS_2D", "NS_SA"] if tier == "quick" else list(DIMS)
    jobs = []
    for m in models:
        P = eigen_types(Program(euler_tus([m], ["EulerEvaluator"])))
        base = [dict(), dict(block=1), dict(roe=1, block=1), dict(rot=True)]
        for kw in base:
            jobs.append((matvec, (P, m, kw), "%s: LUSGSMatrixVec %s" % (m, kw)))
            jobs.append((init, (P, m, kw), "%s: LUSGSMatrixInit %s" % (m, kw)))
            jobs.append((lu, (P, m, kw), "%s: sparse Jacobian %s" % (m, kw)))
            for w in ("forward", "backward", "sgs_forward", "sgs_backward"):
                for al in (False, True):
                    jobs.append((sweep, (P, m, kw, w, al), "%s: %s %s %s" % (m, w, kw, "in place" if al else "")))
        jobs.append((init, (P, m, dict(opts={"ignoreSourceTerm": 1})), "%s: LUSGSMatrixInit without source" % m))
        for nm in ("fluxJacobian0_Right_Times_du", "fluxJacobian0_Right_Times_du_AsMatrix"):
            for roe in (0, 1):
                for sign, omit in ((-1, 0), (1, 1), (1, 0)):
                    jobs.append((kernel, (P, m, nm, roe, sign, omit), "%s: %s" % (m, nm)))
        jobs.append((kernel, (P, m, "fluxJacobianC_Right_Times_du", 0, 0, 0), "%s: fluxJacobianC_Right_Times_du" % m))
        P2 = eigen_types(Program(euler_tus([m], ["EulerEvaluator_EvaluateDt"])))
        for local in (True, False):
            jobs.append((dt, (P2, m, local, local), "%s: time step" % m))
    run_jobs(R, jobs)
    R.need("operators", 1)
