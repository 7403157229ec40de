"""P21: the linear algebra under the solvers: DOF vectors, Krylov methods, sparse factorisations."""
import itertools
from prog import *
from refelem import *
from fvmodel import *
from mpisites import op_name
from evcommon import Cmp
from report import run_jobs
import alg, random

U = VERIF + "/units/algebra_linear.cpp"


def run(R, tier):
    P = eigen_types(Program([U]))
    R.rule("Abstract interpretation of Euler.hpp (DOF vectors), Solver/Linear.hpp and Solver/Direct.hpp in an algebra of formal entries. "
           "DOF vectors: each operation on owned and ghost rows is the entrywise operation it is named after and each global quantity combines the "
           "owned rows once with the other ranks' contribution. GMRES: in coordinates where the preconditioned operator is a formal Hessenberg matrix "
           "the update makes the preconditioned residual orthogonal to the image of the Krylov space, and solves exactly when the space closes. PCG: the "
           "exact solution after as many iterations as unknowns, however the iterations are split over calls. Factorisations: for every adjacency "
           "graph and ordering the symbolic structure is the one of the elimination (or of the incomplete level asked for), the factors multiply to the "
           "matrix on that structure, and solving with the complete factors inverts the product the same object computes.")
    R.assume("rounding is not modelled; general position: formal quantities do not vanish by accident, guard constants (verySmallReal, 1e-32) are zero")
    jobs = [(dofv, (R, P), "DOF vectors"), (recv, (R, P), "reconstruction vectors")]
    for k in (1, 2, 3, 4):
        jobs.append((gmres, (R, P, k), "GMRES with %d directions" % k))
    for calls in ((2,), (1, 1), (3,)):
        jobs.append((pcg, (R, P, calls), "PCG in %s" % (calls,)))
    jobs.append((symbolic, (R, P), "symbolic factorisation"))
    for cls in ("LU", "LDLT"):
        for nb in (1, 2):
            for dec in (("InPlaceDecompose", "InPlaceDecomposeV1", "InPlaceDecomposeV2") if cls == "LU" else ("InPlaceDecompose",)):
                jobs.append((numeric, (R, P, cls, nb, dec), "%s<%d> %s" % (cls, nb, dec)))
    run_jobs(R, [(f, a[1:], l) for f, a, l in jobs])
    R.need("vector_operations", 24)
    R.need("krylov_runs", 6)
    R.need("structures", 100)
    R.need("factorisations", 20)


def one(P, q, pred=lambda f: True):
    fs = [f for f in P.by_q.get(q, []) if not f.dep and pred(f)]
    if not fs:
        raise AnalysisError("%s is not there any more" % q)
    return fs[0]


def fresh(P):
    A = Atoms()
    I = Interp(P, A, small=True)
    I.hooks["DNDS::MPI::Barrier"] = lambda I, fr, n, a: None
    I.hooks["DNDS::MPISerialDo"] = lambda I, fr, n, a: None
    return I, A


# ---------------------------------------------------------------- DOF vectors
class DArr(Obj):
    """one side of an array pair: rows of formal entries over one flat storage"""

    def __init__(s, I, nm, rows, r, c):
        s.r, s.c, s.n, s.nm = r, c, rows, nm
        s.cells = [[I.cell(I.A.var("%s_%d_%d" % (nm, i, k))) for k in range(r * c)] for i in range(rows)]
        s.raw = I.store(I.A.const(0))
        I.heap[s.raw.c] = Seq_([LV(c) for row in s.cells for c in row])

    def val(s, I):
        return [[I.q(I.heap[c]) for c in row] for row in s.cells]

    def meth(s, I, fr, n, nm, args):
        a = [I.ev(fr, x) for x in args]
        if nm in ("Size", "size"):
            return I.A.const(s.n)
        if nm in ("RowSize", "MatRowSize"):
            return I.A.const(s.r)
        if nm == "MatColSize":
            return I.A.const(s.c)
        if nm == "RawDataVector":
            return s.raw
        if nm == "DataSize":
            return I.A.const(s.n * s.r * s.c)
        if nm in ("operator[]", "operator()"):
            return s.idx(I, fr, n, a)
        if nm == "getMPI":
            return NoOp()
        return NotImplemented

    def idx(s, I, fr, n, a):
        k = I.int(a[0])
        if not 0 <= k < s.n:
            raise I.broken("row %d of %s, which has %d" % (k, s.nm, s.n))
        if len(a) > 1:
            return LV(s.cells[k][I.int(a[1])])
        return View(s.r, s.c, s.cells[k])


def pair(I, P, cls, nm, r, c, nf=2, ns=1):
    t = next((x for x in P.records if re.match(cls + "$", x)), cls)
    f, s = DArr(I, nm + "f", nf, r, c), DArr(I, nm + "s", ns, r, c)
    return I.store(Rec(t, {"father": I.store(f), "son": I.store(s), "trans": I.store(NoOp())})), f, s


def reduction(I, P):
    cnt = [0]

    def h(I, fr, n, a):
        p, q, k = I.rv(a[0]), I.rv(a[1]), I.int(a[2])
        op = op_name(P, fr.fn, n["args"][4])
        if not isinstance(p, Ptr) or not isinstance(q, Ptr) or op not in ("sum", "min", "max"):
            raise Undecided("reduction of something else")
        for i in range(k):
            o, v = I.A.var("other%d" % cnt[0]), I.q(p.e[p.o + i])
            cnt[0] += 1
            if not isinstance(v, Q):
                raise I.broken("a reduction sends a value that was never computed")
            I.assign(q.e[q.o + i], v + o if op == "sum" else qmax(v, o, op))
        return None
    I.hooks["DNDS::MPI::Allreduce"] = h


def par(f):
    return [f.tu.types[f.tu.vars[p]["t"]] for p in f.params]


def want_rows(cmp, key, arrs, want, text):
    for side, (a, w) in enumerate(zip(arrs, want)):
        cmp(key + "|%d" % side, [x for r in a for x in r], [x for r in w for x in r], text + (" (owned rows)", " (ghost rows)")[side])


def vectors(R, P, cls, r, c, ops):
    tag = cls
    for q, sel, mk, rowop, text in ops:
        f = one(P, "DNDS::Euler::%s::%s" % (cls, q), sel)
        I, A = fresh(P)
        reduction(I, P)
        me, mf, ms = pair(I, P, r"DNDS::Euler::%s<2>" % cls, "a", r, c)
        oth, of, os_ = pair(I, P, r"DNDS::Euler::%s<2>" % cls, "b", r, c)
        av, bv = [mf.val(I), ms.val(I)], [of.val(I), os_.val(I)]
        args, par_ = mk(I, A, P, oth)
        ret = I.call(f, args, this=me)
        R.count("vector_operations")
        cmp = Cmp(R, None, tag, f.loc())
        key = "%s|%s|%s" % (cls, q, text)
        new = [mf.val(I), ms.val(I)]
        res = rowop(A, av, bv, par_)
        rows, val = res if isinstance(res, tuple) else (res, None)
        want_rows(cmp, key, new, rows, "%s::%s: the vector afterwards is not %s" % (cls, q, text))
        want_rows(cmp, key + "|other", [of.val(I), os_.val(I)], bv, "%s::%s changes its argument" % (cls, q))
        if val is not None:
            m = I.rv(ret)
            got = I.mat(m).v if isinstance(m, (Mat, View)) else [I.q(m)]
            cmp(key + "|value", got, val, "%s::%s: the value returned is not %s" % (cls, q, text))


def vmap(f):
    return lambda A, a, b, p: [[[f(A, x, y, p, i, k) for k, (x, y) in enumerate(zip(ra, rb))] for i, (ra, rb) in enumerate(zip(sa, sb))] for sa, sb in zip(a, b)]


def dofv(R, P):
    none = lambda I, A, P, o: ([], None)
    other = lambda I, A, P, o: ([o], None)

    def scal(I, A, P, o):
        s = A.var("s")
        return [I.store(s)], s

    def vec(I, A, P, o):
        u = [A.var("u%d" % k) for k in range(2)]
        return [I.store(Mat(2, 1, u))], u

    def withs(I, A, P, o):
        s = A.var("s")
        return [o, I.store(s)], s

    def lst(I, A, P, o):
        w = [A.var("w%d" % k) for k in range(3)]
        v = I.store(A.const(0))
        I.heap[v.c] = Seq_([I.store(x) for x in w])
        return [v], w

    def dof1(I, A, P, o):
        d, f, s = pair(I, P, r"DNDS::Euler::ArrayDOFV<1>", "d", 1, 1)
        return [d], [f.val(I), s.val(I)]

    def lr(I, A, P, o):
        l, r = [A.var("l%d" % k) for k in range(2)], [A.var("r%d" % k) for k in range(2)]
        return [o, I.store(Mat(2, 1, l, True)), I.store(Mat(2, 1, r, True))], (l, r)
    T = lambda s: lambda f: len(par(f)) == 1 and re.search(s, par(f)[0])
    N = lambda k: lambda f: len(f.params) == k
    oth = lambda A, k: [A.var("other%d" % i) for i in range(k)]

    def same(A, a, b, p):
        return a

    def red(g):
        return lambda A, a, b, p: (a, g(A, a, b, p))

    def total(g):
        def h(A, a, b, p):
            s = A.var("other0")
            for ra, rb in zip(a[0], b[0]):
                for k, (x, y) in enumerate(zip(ra, rb)):
                    s = s + g(x, y, k, p)
            return s
        return h

    def comps(g, comb):
        def h(A, a, b, p):
            out = []
            for k in range(2):
                v = None
                for r in a[0]:
                    v = g(r[k]) if v is None else comb(v, g(r[k]))
                out.append(comb(v, A.var("other%d" % k)))
            return out
        return h
    ops = [
        ("setConstant", lambda f: par(f)[0].strip() == "double", scal, vmap(lambda A, x, y, p, i, k: p), "the constant"),
        ("setConstant", T("Eigen"), vec, vmap(lambda A, x, y, p, i, k: p[k]), "the constant row"),
        ("operator+=", T("ArrayDOFV"), other, vmap(lambda A, x, y, p, i, k: x + y), "the sum"),
        ("operator-=", T("ArrayDOFV"), other, vmap(lambda A, x, y, p, i, k: x - y), "the difference"),
        ("operator*=", lambda f: par(f)[0].strip() == "double", scal, vmap(lambda A, x, y, p, i, k: x * p), "the multiple"),
        ("operator=", T("ArrayDOFV"), other, vmap(lambda A, x, y, p, i, k: y), "the copy"),
        ("addTo", N(2), withs, vmap(lambda A, x, y, p, i, k: x + y * p), "the vector plus the multiple"),
        ("operator*=", T("vector<"), lst, lambda A, a, b, p: [[[x * p[i] for x in r] for i, r in enumerate(a[0])], a[1]], "the rows scaled one by one (owned rows only)"),
        ("operator*=", T(r"ArrayDOFV<1>"), dof1, lambda A, a, b, p: [[[x * p[s][i][0] for x in r] for i, r in enumerate(a[s])] for s in (0, 1)], "the rows scaled by the scalar field"),
        ("operator*=", T(r"ArrayDOFV<2>"), other, vmap(lambda A, x, y, p, i, k: x * y), "the entrywise product"),
        ("operator*=", T(r"Eigen"), vec, vmap(lambda A, x, y, p, i, k: x * p[k]), "the product with the row"),
        ("operator+=", T(r"Eigen"), vec, vmap(lambda A, x, y, p, i, k: x + p[k]), "the sum with the row"),
        ("operator+=", lambda f: par(f)[0].strip() == "double", scal, vmap(lambda A, x, y, p, i, k: x + p), "the sum with the constant"),
        ("operator/=", T(r"ArrayDOFV"), other, vmap(lambda A, x, y, p, i, k: x / y), "the entrywise quotient"),
        ("setAbs", N(0), none, vmap(lambda A, x, y, p, i, k: qabs(x)), "the absolute value"),
        ("setMaxWith", N(1), scal, vmap(lambda A, x, y, p, i, k: qmax(x, p, "max")), "the maximum with the constant"),
        ("setMinWith", N(1), scal, vmap(lambda A, x, y, p, i, k: qmax(x, p, "min")), "the minimum with the constant"),
        ("norm2", N(0), none, red(lambda A, a, b, p: [qsqrt(total(lambda x, y, k, p: x * x)(A, a, b, p))]), "the root of the global sum of squares over owned rows"),
        ("dot", N(1), other, red(lambda A, a, b, p: [total(lambda x, y, k, p: x * y)(A, a, b, p)]), "the global scalar product over owned rows"),
        ("dot", N(3), lr, red(lambda A, a, b, p: [total(lambda x, y, k, p: x * p[0][k] * y * p[1][k])(A, a, b, p)]), "the weighted global scalar product over owned rows"),
        ("componentWiseNorm1", N(0), none, red(comps(qabs, lambda x, y: x + y)), "the global sum of magnitudes over owned rows"),
        ("min", N(0), none, red(comps(lambda x: x, lambda x, y: qmax(x, y, "min"))), "the global minimum over owned rows"),
    ]
    vectors(R, P, "ArrayDOFV", 2, 1, ops)


def recv(R, P):
    none = lambda I, A, P, o: ([], None)
    other = lambda I, A, P, o: ([o], None)

    def scal(I, A, P, o):
        s = A.var("s")
        return [I.store(s)], s

    def withs(I, A, P, o):
        s = A.var("s")
        return [o, I.store(s)], s

    def mat(I, A, P, o):
        u = [A.var("u%d" % k) for k in range(4)]
        return [I.store(Mat(2, 2, u))], u

    def row(I, A, P, o):
        u = [A.var("u%d" % k) for k in range(2)]
        return [I.store(Mat(1, 2, u, True))], u

    def withrow(I, A, P, o):
        a, u = row(I, A, P, o)
        return [o] + a, u

    def lst(I, A, P, o):
        w = [A.var("w%d" % k) for k in range(3)]
        v = I.store(A.const(0))
        I.heap[v.c] = Seq_([I.store(x) for x in w])
        return [v], w

    def dof1(I, A, P, o):
        d, f, s = pair(I, P, r"DNDS::Euler::ArrayDOFV<1>", "d", 1, 1)
        return [d], [f.val(I), s.val(I)]
    T = lambda s: lambda f: len(par(f)) == 1 and re.search(s, par(f)[0])
    S = lambda f: len(par(f)) == 1 and par(f)[0].strip() == "double"

    def total(g):
        def h(A, a, b, p):
            s = A.var("other0")
            for ra, rb in zip(a[0], b[0]):
                for x, y in zip(ra, rb):
                    s = s + g(x, y)
            return s
        return h
    ops = [
        ("setConstant", S, scal, vmap(lambda A, x, y, p, i, k: p), "the constant"),
        ("setConstant", T("Eigen"), mat, vmap(lambda A, x, y, p, i, k: p[k]), "the constant block"),
        ("operator+=", T("ArrayRECV"), other, vmap(lambda A, x, y, p, i, k: x + y), "the sum"),
        ("operator-=", T("ArrayRECV"), other, vmap(lambda A, x, y, p, i, k: x - y), "the difference"),
        ("operator*=", S, scal, vmap(lambda A, x, y, p, i, k: x * p), "the multiple"),
        ("operator*=", T("vector<"), lst, lambda A, a, b, p: [[[x * p[i] for x in r] for i, r in enumerate(a[0])], a[1]], "the rows scaled one by one (owned rows only)"),
        ("operator*=", T("ArrayDOFV<1>"), dof1, lambda A, a, b, p: [[[x * p[s][i][0] for x in r] for i, r in enumerate(a[s])] for s in (0, 1)], "the rows scaled by the scalar field"),
        ("operator*=", T("Eigen"), row, vmap(lambda A, x, y, p, i, k: x * p[k % 2]), "the columns scaled"),
        ("operator=", T("ArrayRECV"), other, vmap(lambda A, x, y, p, i, k: y), "the copy"),
        ("addTo", lambda f: "Eigen" in par(f)[1], withrow, vmap(lambda A, x, y, p, i, k: x + y * p[k % 2]), "the vector plus the column-scaled argument"),
        ("addTo", lambda f: "Eigen" not in par(f)[1], withs, vmap(lambda A, x, y, p, i, k: x + y * p), "the vector plus the multiple"),
        ("norm2", lambda f: True, none, lambda A, a, b, p: (a, [qsqrt(total(lambda x, y: x * x)(A, a, b, p))]), "the root of the global sum of squares over owned rows"),
        ("dot", lambda f: True, other, lambda A, a, b, p: (a, [total(lambda x, y: x * y)(A, a, b, p)]), "the global scalar product over owned rows"),
        ("dotV", lambda f: True, other, lambda A, a, b, p: (a, [sum((x * y for ra, rb in zip(a[0], b[0]) for k, (x, y) in enumerate(zip(ra, rb)) if k % 2 == j), A.var("other%d" % j)) for j in range(2)]),
         "the global scalar product of each variable over owned rows"),
    ]
    vectors(R, P, "ArrayRECV", 2, 2, ops)


# ---------------------------------------------------------------- Krylov methods
def lvec(I, v):
    return I.store(Rec("DNDSX::LVec", {"v": I.store(Mat(3, 1, v))}))


def lget(I, d):
    v = I.mat(I.rv(d).f["v"]).v
    bad = [x for x in v if not isinstance(x, Q)]
    if any("division by zero" in repr(x) for x in bad):
        raise Broken("the iteration divides by zero for a system in general position", "src/Solver/Linear.hpp")
    if bad:
        raise Undecided("a vector of the iteration is not expressible (%s)" % next(x for x in v if not isinstance(x, Q)))
    return v


def lput(I, d, v):
    I.assign(I.rv(d).f["v"], Mat(3, 1, v))


def mv(M, v):
    return [sum((M[i][j] * v[j] for j in range(len(v))), v[0].A.const(0)) for i in range(len(M))]


def vdot(u, v):
    return sum((x * y for x, y in zip(u, v)), u[0].A.const(0))


def position(A):
    """conditions are decided by their sign at formal values in general position (all of one sign, or not decided)"""
    def g(c):
        sg = set()
        for k in range(6):
            try:
                v, t = alg.Valuation(A, random.Random(77 + k), None).scaled(c.q)
            except (KeyError, OverflowError, TypeError):
                return None
            if v != v:
                continue
            sg.add((v > 0) - (v < 0))
        if len(sg) != 1:
            return None
        s = sg.pop()
        r = {">": s > 0, ">=": s >= 0, "==": s == 0, "!=": s != 0}.get(c.op)
        return None if r is None else r != c.neg
    return g


def gmres(R, P, ks):
    """coordinates in which the preconditioned residual points along the first axis and the preconditioned operator is Hessenberg with a
    positive subdiagonal: every problem has them (orthogonal transformations commute with the algorithm)"""
    f = one(P, "DNDSX::goGM")
    sol = one(P, "DNDS::Linear::GMRES_LeftPreconditioned::solve")
    for closed in (3, 2, 1):       # dimension in which the Krylov space closes
        I, A = fresh(P)
        I.generic = position(A)
        g = I.call(one(P, "DNDSX::mkGM"), [A.const(ks)])
        g = g if isinstance(g, LV) else I.store(g)
        H = [[A.var("h%d%d" % (i, j), positive=i == j + 1) if i <= j + 1 else A.const(0) for j in range(3)] for i in range(3)]
        if closed < 3:
            H[closed][closed - 1] = A.const(0)
        D = [A.var("d%d" % i, positive=True) for i in range(3)]     # the preconditioner, on the operator D^-1 H
        beta = A.var("beta", positive=True)
        x0 = [A.var("x%d" % i) for i in range(3)] if ks == 1 else [A.const(0)] * 3
        Aop = lambda v: [y / d for y, d in zip(mv(H, v), D)]
        b = [y + (beta / D[0] if i == 0 else A.const(0)) for i, y in enumerate(Aop(x0))]
        x, bb = lvec(I, x0), lvec(I, b)
        cyc = []
        log = []

        def fa(I, fr, n, a):
            lput(I, a[1], Aop(lget(I, a[0])))

        def fml(I, fr, n, a):
            lput(I, a[1], [d * y for d, y in zip(D, lget(I, a[0]))])

        def fdot(I, fr, n, a):
            return vdot(lget(I, a[0]), lget(I, a[1]))

        def fstop(I, fr, n, a):
            log.append((I.int(a[0]), I.q(a[1]), I.q(a[2])))
            cyc.append(list(lget(I, x)))
            return False

        def lsq(I, fr, n, a):
            h, e = I.mat(a[0]), I.mat(a[1])
            if not isinstance(h, Mat) or h.r != e.r:
                raise I.broken("the projected problem has %s rows and a right-hand side of %s" % (getattr(h, "r", "?"), e.r))
            ht = Mat(h.c, h.r, [h.v[i * h.c + j] for j in range(h.c) for i in range(h.r)])
            y = I.mop("*", I.matinv(I.mop("*", ht, h)), I.mop("*", ht, e))
            I.assign(a[2], y)
            return A.const(h.c)
        I.hooks["DNDS::HardEigen::EigenLeastSquareSolve"] = lsq
        ret = I.call(f, [g, fa, fml, fdot, bb, x, A.const(1), fstop])
        R.count("krylov_runs")
        cmp = Cmp(R, None, "%d directions, Krylov space of dimension %d" % (ks, closed), sol.loc())
        if not log:
            R.viol("gmres|stop", sol.loc(), "GMRES never asks whether to stop [%s]" % cmp.tag)
            return
        cmp("gmres|norms", [log[0][1], log[0][2]], [beta, qsqrt(vdot(mb(D, b), mb(D, b)))], "GMRES: the norms handed to the stopping test are not those of the preconditioned residual and right-hand side")
        x1 = lget(I, x)
        res = [(beta if i == 0 else A.const(0)) - y for i, y in enumerate(mv(H, [p - q for p, q in zip(x1, x0)]))]
        k = min(ks, closed)
        basis = [[A.const(int(i == j)) for i in range(3)] for j in range(k)]
        cmp("gmres|minres", [vdot(res, mv(H, e)) for e in basis], [A.const(0)] * k,
            "GMRES: after a cycle the preconditioned residual is not the smallest over the Krylov space")
        cmp("gmres|space", [p - q for p, q in zip(x1, x0)][k:], [A.const(0)] * (3 - k), "GMRES: the update leaves the Krylov space")
        if len(log) > 1:
            cmp("gmres|restart", [log[1][1]], [qsqrt(vdot(res, res))], "GMRES: the residual norm at a restart is not that of the updated solution")
        cmp("gmres|rhs", lget(I, bb), b, "GMRES changes the right-hand side")


def mb(D, b):
    return [d * y for d, y in zip(D, b)]


def pcg(R, P, calls):
    f = one(P, "DNDSX::goCG")
    sol = one(P, "DNDS::Linear::PCG_PreconditionedRes::solve")
    n = sum(calls)
    I, A = fresh(P)
    I.generic = position(A)
    g = I.call(one(P, "DNDSX::mkCG"), [])
    g = g if isinstance(g, LV) else I.store(g)
    if n == 2:
        a, c, b = A.var("a", positive=True), A.var("c", positive=True), A.var("b")
        M = [[a, b, A.const(0)], [b, c, A.const(0)], [A.const(0), A.const(0), A.const(1)]]
        m = [A.var("m0", positive=True), A.var("m1", positive=True), A.const(1)]
        rhs = [A.var("f0"), A.var("f1"), A.const(0)]
        x0 = [A.const(0)] * 3
    else:
        M = [[A.const(x) for x in r] for r in ((4, 1, 2), (1, 5, -1), (2, -1, 7))]
        m = [A.const(2), A.const(3), A.const(1)]
        rhs = [A.var("f0"), A.var("f1"), A.const(1)]
        x0 = [A.const(0)] * 3
    for rep in (0, 1):             # the second time after reset(), from a new start
        x = lvec(I, x0)
        seen = []

        def fa(I, fr, n, a):
            lput(I, a[1], mv(M, lget(I, a[0])))

        def fm(I, fr, n, a):
            lput(I, a[1], [d * y for d, y in zip(m, lget(I, a[0]))])

        def fres(I, fr, n, a):
            lput(I, a[1], [(p - q) / d for p, q, d in zip(rhs, mv(M, lget(I, a[0])), m)])

        def fdot(I, fr, n, a):
            return vdot(lget(I, a[0]), lget(I, a[1]))

        def fstop(I, fr, n, a):
            seen.append((lget(I, x), I.q(a[1]), I.q(a[2])))
            return False
        for k in calls:
            I.call(f, [g, fa, fm, fres, fdot, x, A.const(k), fstop])
        R.count("krylov_runs")
        cmp = Cmp(R, None, "%s iterations%s" % ("+".join(map(str, calls)), " after a reset" if rep else ""), sol.loc())
        for xs, zr, zz in seen[:1]:
            r = [p - q for p, q in zip(rhs, mv(M, xs))]
            z = [p / d for p, d in zip(r, m)]
            cmp("pcg|norms", [zr, zz], [vdot(z, r), vdot(z, z)], "PCG: the products handed to the stopping test are not those of the residual")
        cmp("pcg|exact", mv(M, lget(I, x)), rhs, "PCG does not reach the solution in as many iterations as there are unknowns")
        I.call(one(P, "DNDSX::rsCG"), [g])
        rhs = [A.var("g0"), A.const(2), A.const(0) if n == 2 else A.const(1)]
        if n == 2:
            M = [[A.const(x) for x in r] for r in ((4, 1, 0), (1, 5, 0), (0, 0, 1))]


# ---------------------------------------------------------------- factorisations
def structure(I, P, n, perm):
    t = next(x for x in P.records if x.endswith("Direct::SerialSymLUStructure"))
    s = I.default(t)
    r = I.heap[s.c]
    r.f["mpi"] = I.store(NoMpi())
    r.f["N"] = I.store(I.A.const(n))
    if perm:
        inv = [perm.index(i) for i in range(n)]
        for nm, v in (("localFillOrderingNew2Old", perm), ("localFillOrderingOld2New", inv)):
            I.heap[r.f[nm].c] = Seq_([I.store(I.A.const(x)) for x in v])
    return s


class NoMpi(Obj):
    def fld(s, I, fr, n):
        return I.store(I.A.const(1 if n["n"] in ("rank", "size") else 0))

    def meth(s, I, fr, n, nm, args):
        return NotImplemented


def adjacency(I, n, edges):
    nb = [[] for _ in range(n)]
    for i, j in edges:
        nb[i].append(j)
        nb[j].append(i)
    o = I.store(I.A.const(0))
    rows = []
    for r in nb:
        c = I.store(I.A.const(0))
        I.heap[c.c] = Seq_([I.store(I.A.const(x)) for x in r])
        rows.append(c)
    I.heap[o.c] = Seq_(rows)
    return o, nb


def lists(I, s, nm):
    return [[I.int(y) for y in I.rv(x).e] for x in I.rv(I.heap[s.c].f[nm]).e]


def fill(n, nb, perm, code):
    """structure of the elimination in the new numbering: (i, j) with j < i"""
    old = perm or list(range(n))
    new = [old.index(i) for i in range(n)]
    adj = [{new[y] for y in nb[old[i]]} for i in range(n)]
    reach = [set(nb[i]) for i in range(n)]
    for _ in range(max(code, 0)):
        reach = [r | {z for y in r for z in nb[y]} for r in reach]
    for k in range(n):
        hi = sorted(x for x in adj[k] if x > k)
        for i, j in itertools.combinations(hi, 2):
            if code < 0 or code > 0 and old[j] in reach[old[i]]:
                adj[i].add(j)
                adj[j].add(i)
    return {(i, j) for i in range(n) for j in adj[i] if j < i}


def graphs(n):
    es = list(itertools.combinations(range(n), 2))
    for m in range(len(es) + 1):
        yield from itertools.combinations(es, m)


def symbolic(R, P):
    f = one(P, "DNDSX::sym")
    g = one(P, "DNDS::Direct::SerialSymLUStructure::ObtainSymmetricSymbolicFactorization")
    cases = []
    for n in (1, 2, 3):
        for e in graphs(n):
            for perm in [None] + [list(p) for p in itertools.permutations(range(n))][1:]:
                cases.append((n, e, perm))
    for e in (((0, 1), (1, 2), (2, 3)), ((0, 1), (1, 2), (2, 3), (0, 3)), ((0, 1), (0, 2), (0, 3)), ((0, 3), (1, 3), (2, 3)), ((0, 2), (0, 3), (1, 3))):
        for perm in (None, [2, 0, 3, 1], [3, 2, 1, 0], [1, 0, 3, 2]):
            cases.append((4, e, perm))
    cases.append((5, ((0, 1), (1, 2), (2, 3), (3, 4), (0, 4)), [2, 4, 0, 3, 1]))
    cases.append((6, ((0, 1), (1, 2), (3, 4), (4, 5), (0, 3), (1, 4), (2, 5)), [5, 0, 3, 1, 4, 2]))
    bad = set()
    for n, e, perm in cases:
        for code in ((-1, 0, 1) if n <= 3 else (-1, 0, 1, 2)):
            if n == 3 and code == 1 and perm not in (None, [2, 0, 1]):
                continue
            SetV.order = -1 if (len(e) + n) % 2 else 1
            try:
                I, A = fresh(P)
                s = structure(I, P, n, perm)
                adj, nb = adjacency(I, n, e)
                I.call(f, [s, adj, A.const(code)])
                L = {k: lists(I, s, k) for k in ("lowerTriStructure", "upperTriStructure", "lowerTriStructureNew", "upperTriStructureNew",
                                                  "lowerTriStructureNewInUpper", "upperTriStructureNewInLower", "cell2cellFaceVLocal2FullRowPos")}
            finally:
                SetV.order = 1
            R.count("structures")
            old = perm or list(range(n))
            new = [old.index(i) for i in range(n)]
            want = fill(n, nb, perm, code)
            lo = [[j for j in range(n) if (i, j) in want] for i in range(n)]
            up = [[j for j in range(n) if (j, i) in want] for i in range(n)]
            chk = [("lowerTriStructureNew", lo, "the lower structure"), ("upperTriStructureNew", up, "the upper structure"),
                   ("lowerTriStructure", [[old[j] for j in lo[new[i]]] for i in range(n)], "the lower structure in the mesh numbering"),
                   ("upperTriStructure", [[old[j] for j in up[new[i]]] for i in range(n)], "the upper structure in the mesh numbering"),
                   ("lowerTriStructureNewInUpper", [[up[j].index(i) for j in lo[i]] for i in range(n)], "the place of a lower entry in its upper row"),
                   ("upperTriStructureNewInLower", [[lo[j].index(i) for j in up[i]] for i in range(n)], "the place of an upper entry in its lower row"),
                   ("cell2cellFaceVLocal2FullRowPos", [[1 + lo[new[i]].index(new[j]) if new[j] < new[i] else 1 + len(lo[new[i]]) + up[new[i]].index(new[j]) for j in nb[i]] for i in range(n)],
                    "the place of a neighbour in its matrix row")]
            for k, w, text in chk:
                if L[k] != w and k not in bad:
                    bad.add(k)
                    R.viol("symbolic|" + k, g.loc(), "symbolic factorisation: %s is not that of the elimination [%d cells, edges %s, order %s, level %d: %s instead of %s]" % (text, n, e, old, code, L[k], w))


class LDU(Obj):
    def __init__(s, nb):
        s.nb, s.n, s.len, s.d, s.sealed = nb, 0, {}, {}, False

    def at(s, I, i, k):
        if not 0 <= i < s.n or not 0 <= k < s.len.get(i, 0):
            raise I.broken("matrix entry %d of row %d, which has %d" % (k, i, s.len.get(i, 0)))
        if (i, k) not in s.d:
            s.d[i, k] = View(s.nb, s.nb, [I.cell(Top("uninitialised")) for _ in range(s.nb ** 2)])
        return s.d[i, k]

    def meth(s, I, fr, n, nm, args):
        a = [I.ev(fr, x) for x in args]
        if nm == "Resize":
            s.n = I.int(a[0])
            if [I.int(x) for x in a[1:]] != [s.nb] * 2:
                raise I.broken("blocks of another size")
            return None
        if nm == "ResizeRow":
            s.len[I.int(a[0])] = I.int(a[1])
            return None
        if nm == "Compress":
            return None
        if nm in ("operator()", "operator[]"):
            return s.idx(I, fr, n, a)
        return NotImplemented

    def idx(s, I, fr, n, a):
        i = I.int(a[0])
        if len(a) == 1:
            return RowOf([I.store(s.at(I, i, k)) if False else s.at(I, i, k) for k in range(s.len.get(i, 0))])
        return s.at(I, i, I.int(a[1]))


class RowOf(Obj):
    def __init__(s, v):
        s.v = v

    def items(s, I):
        return s.v


def numeric(R, P, cls, nb, dec):
    full = {"LU": "DNDS::Euler::JacobianLocalLU", "LDLT": "DNDS::Euler::JacobianLocalLDLT"}[cls]
    base = {"LU": "DNDS::Direct::LocalLUBase", "LDLT": "DNDS::Direct::LocalLDLTBase"}[cls]
    mine = lambda f: "JacobianLocal%s<%d>" % (cls, nb) in f.key
    ctor = one(P, full + "::" + full.rsplit("::", 1)[1], lambda f: mine(f) and len(f.params) == 2)
    fd, fs, fm = (one(P, base + "::" + k, mine) for k in (dec, "Solve", "MatMul"))
    fz = one(P, full + "::setZero", mine)
    rec = next(x for x in P.records if x == "%s<%d>" % (full, nb))
    sym = one(P, "DNDSX::sym")
    if nb == 1:
        cases = [(3, e, p, c) for e in (((0, 1), (1, 2)), ((0, 1), (0, 2)), ((0, 1), (1, 2), (0, 2))) for p in (None, [1, 2, 0]) for c in (-1, 0)]
        cases += [(4, ((0, 1), (1, 2), (2, 3), (0, 3)), p, c) for p in (None, [2, 0, 3, 1]) for c in (-1, 0, 1)]
        cases += [(4, ((0, 1), (0, 2), (0, 3)), None, c) for c in (-1, 0)]
    else:
        cases = [(2, ((0, 1),), p, -1) for p in (None, [1, 0])] + [(3, e, p, -1) for e in (((0, 2), (1, 2)), ((0, 1), (1, 2), (0, 2))) for p in (None, [2, 0, 1])]
    for n, e, perm, code in cases:
        I, A = fresh(P)
        s = structure(I, P, n, perm)
        adj, nbr = adjacency(I, n, e)
        I.call(sym, [s, adj, A.const(code)])
        L = {k: lists(I, s, k) for k in ("lowerTriStructure", "upperTriStructure")}
        me = I.default(rec)
        I.heap[me.c].f["LDU"] = I.store(LDU(nb))
        I.heap[me.c].f["symLU"] = s
        I.heap[me.c].f["isDecomposed"] = I.store(False)
        mod = I.rv(I.heap[me.c].f["LDU"])
        tag = "%d cells, edges %s, order %s, level %d" % (n, e, perm or "natural", code)
        cmp = Cmp(R, None, tag, fd.loc())
        # the constructor sizes the rows and clears them; setZero makes the object reusable
        args = [s, A.const(nb)]
        I.heap[me.c].f["LDU"] = I.store(mod)
        try:
            body(I, ctor, me, args)
        except SOFT as ex:
            raise Undecided("constructor: %s" % ex)
        for rnd in (0, 1):
            if rnd:
                I.call(fz, [], this=me)
            pos = {}
            for i in range(n):
                for k, j in enumerate(L["lowerTriStructure"][i]):
                    pos[i, j] = mod.at(I, i, 1 + k)
                if cls == "LU":
                    for k, j in enumerate(L["upperTriStructure"][i]):
                        pos[i, j] = mod.at(I, i, 1 + len(L["lowerTriStructure"][i]) + k)
                pos[i, i] = mod.at(I, i, 0)
            z = [I.q(I.heap[c]) for v in pos.values() for c in v.ids]
            cmp("%s|clear|%d" % (cls, rnd), z, [A.const(0)] * len(z), "%s: %s does not clear the matrix" % (full, "setZero" if rnd else "the constructor"), where=(fz if rnd else ctor).loc())
            M = matrix(A, n, nb, nbr, perm, sorted(pos), cls, code, rnd)
            if M is None:
                break
            for ij, v in pos.items():
                for c, y in zip(v.ids, M.get(ij, [A.const(0)] * nb ** 2)):
                    I.heap[c] = y
            xs, xf, _ = pair(I, P, r"DNDS::Euler::ArrayDOFV<%d>" % nb, "x%d" % rnd, nb, 1, nf=n, ns=1)
            ys, yf, _ = pair(I, P, r"DNDS::Euler::ArrayDOFV<%d>" % nb, "y%d" % rnd, nb, 1, nf=n, ns=1)
            zs, zf, _ = pair(I, P, r"DNDS::Euler::ArrayDOFV<%d>" % nb, "z%d" % rnd, nb, 1, nf=n, ns=1)
            x0 = xf.val(I)
            I.call(fm, [xs, ys], this=me)
            want = [[A.const(0)] * nb for _ in range(n)]
            for (i, j), blk in M.items():
                want[i] = [w + sum((blk[p * nb + q] * x0[j][q] for q in range(nb)), A.const(0)) for p, w in enumerate(want[i])]
            if cls == "LDLT":
                for (i, j), blk in M.items():
                    if j != i:
                        want[j] = [w + sum((blk[q * nb + p] * x0[i][q] for q in range(nb)), A.const(0)) for p, w in enumerate(want[j])]
            cmp("%s|matmul" % cls, [v for r in yf.val(I) for v in r], [v for r in want for v in r], "%s::MatMul is not the product with the stored matrix" % base, where=fm.loc())
            I.call(fd, [], this=me)
            R.count("factorisations")
            factors(I, A, cmp, cls, n, nb, pos, M, perm, "%s|%s|factors" % (cls, dec), "%s::%s: the factors do not multiply to the matrix on their structure" % (base, dec), fd.loc())
            if code < 0:
                # y = A x exactly as formal values; solving gives x back
                for row, w in zip(yf.cells, want):
                    for c, v in zip(row, w):
                        I.heap[c] = v
                I.call(fs, [ys, zs], this=me)
                cmp("%s|%s|solve" % (cls, dec), [v for r in zf.val(I) for v in r], [v for r in x0 for v in r], "%s: Solve after %s does not invert MatMul" % (base, dec), where=fs.loc())
                cmp("%s|%s|rhs" % (cls, dec), [v for r in yf.val(I) for v in r], [v for r in want for v in r], "%s::Solve changes its right-hand side" % base, where=fs.loc())
            if I.truth(I.heap[me.c].f["isDecomposed"]) is not True:
                R.viol("%s|%s|flag" % (cls, dec), fd.loc(), "%s::%s does not mark the matrix as factorised [%s]" % (base, dec, tag))
            if nb > 1:
                break


def body(I, fn, this, args):
    fr_args = args
    fr = Frame(fn, this)
    for i, pid in enumerate(fn.params):
        fr.env[pid] = fr_args[i]
    try:
        I.stmt(fr, fn.body)
    except Exception as ex:
        if type(ex).__name__ != "_Ret":
            raise


def mm(a, b, n):
    return [sum((a[i * n + k] * b[k * n + j] for k in range(n)), a[0].A.const(0)) for i in range(n) for j in range(n)]


def tr(a, n):
    return [a[j * n + i] for i in range(n) for j in range(n)]


def matrix(A, n, nb, nbr, perm, pos, cls, code, rnd):
    """the stored matrix by (row, column) in the mesh numbering; blocks are made as products of formal factors, which every matrix with
    regular pivots is"""
    old = perm or list(range(n))
    new = [old.index(i) for i in range(n)]
    I1 = [A.const(int(i == j)) for i in range(nb) for j in range(nb)]
    if nb == 1:
        M = {}
        for i in range(n):
            M[i, i] = [A.var("a%d%d%d" % (i, i, rnd), positive=True)]
            for j in nbr[i]:
                if cls == "LU":
                    M[i, j] = [A.var("a%d%d%d" % (i, j, rnd))]
                elif new[j] < new[i]:
                    M[i, j] = [A.var("a%d%d%d" % (i, j, rnd))]
        return M
    low = {(new[i], new[j]) for i, j in pos if new[j] < new[i]}
    V = lambda nm: [A.var("%s%d" % (nm, k)) for k in range(nb * nb)]
    Lf = {(i, j): V("l%d%d" % (i, j)) for i, j in low}
    Dg = {}
    for i in range(n):
        Dg[i] = V("d%d" % i)
        if cls == "LDLT":
            Dg[i][2] = Dg[i][1]
    Uf = {(j, i): (V("u%d%d" % (j, i)) if cls == "LU" else None) for i, j in low}
    M = {}
    for i in range(n):
        for j in range(n):
            if cls == "LDLT" and j > i:
                continue
            acc = None
            for k in range(min(i, j) + 1):
                if k < i and (i, k) not in Lf or k < j and (j, k) not in low:
                    continue
                l = Lf[i, k] if k < i else I1
                if cls == "LU":
                    t = mm(l, Uf[k, j], nb) if k < j else mm(l, Dg[k], nb)
                else:
                    t = mm(mm(l, Dg[k], nb), tr(Lf[j, k], nb) if k < j else I1, nb)
                acc = t if acc is None else [x + y for x, y in zip(acc, t)]
            if acc is not None:
                if (old[i], old[j]) not in pos:
                    return None
                M[old[i], old[j]] = acc
    return M


def factors(I, A, cmp, cls, n, nb, pos, M, perm, key, text, where):
    old = perm or list(range(n))
    new = [old.index(i) for i in range(n)]
    val = {(new[i], new[j]): [I.q(I.heap[c]) for c in v.ids] for (i, j), v in pos.items()}
    if any(not isinstance(x, Q) for v in val.values() for x in v):
        raise Undecided("a factor is not expressible")
    inv = {i: I.matinv(Mat(nb, nb, val[i, i])).v for i in range(n)}     # the diagonal is stored inverted
    I1 = [A.const(int(i == j)) for i in range(nb) for j in range(nb)]
    got, want = [], []
    for (i, j) in sorted(val):
        acc = [A.const(0)] * nb ** 2
        for k in range(min(i, j) + 1):
            if k < i and (i, k) not in val:
                continue
            l = val[i, k] if k < i else I1
            if cls == "LU":
                if k < j and (k, j) not in val:
                    continue
                t = mm(l, val[k, j] if k < j else inv[k], nb)
            else:
                if k < j and (j, k) not in val:
                    continue
                t = mm(mm(l, inv[k], nb), tr(val[j, k], nb) if k < j else I1, nb)
            acc = [x + y for x, y in zip(acc, t)]
        got += acc
        want += M.get((old[i], old[j]), [A.const(0)] * nb ** 2)
    cmp(key, got, want, text, where=where)
