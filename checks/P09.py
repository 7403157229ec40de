"""P09: polynomial bases, derivative maps and periodic transformations are the ones they stand for."""
from prog import *
from refelem import *
from math import comb

SZ = {2: [1, 3, 6, 10], 3: [1, 4, 10, 20]}
BASE = "Base::"


class B(Ref):
    pass


def run(R, tier):
    P = Program([VERIF + "/units/algebra_base.cpp"])
    X = B(P)
    R.rule("Abstract interpretation over rational functions in formal variables of the polynomial basis fill, the derivative tables, the "
           "linear and full derivative maps, the tensor norms, the periodic transformations and the rotation helpers. Decided as exact "
           "identities: every entry of the basis matrix is the stated derivative of the stated monomial for all (rows, cols) shapes; "
           "index tables, combination counts and factorials agree with the multi-index list; derivative maps obey the chain rule for "
           "a general linear map (full map: general higher derivatives); norms are full contractions; periodic transforms use the "
           "transformation of their own index and Back undoes them for every orthogonal rotation (Cayley parametrisation), every "
           "centre, translation and combination of periodic bits.")
    R.assume("floating-point rounding is not modelled")
    tabs = {}
    for part in (tables, fill, ndof, linmap, norms, fullmap, invmap, periodic, bits, geometric):
        try:
            part(R, P, X, tabs)
        except SOFT as ex:
            R.undecided("%s" % (part.__name__,), ex, "undecided")
    R.need("basis_entries", 100)


def glob(P, nm):
    q = [g for g in P.globals if g.endswith("::Base::" + nm)]
    if not q:
        raise AnalysisError("table %s is not there any more" % nm)
    I = Interp(P)
    return I.pylist(I.glob(q[0]))


def multi(dims, d):
    return tuple(sum(1 for x in dims if x == k) for k in range(3))


def tables(R, P, X, T):
    for d, sfx in ((3, ""), (2, "2D")):
        rows = [tuple(r + [0] * (3 - len(r))) for r in glob(P, "diffOperatorOrderList" + sfx)]
        T[d] = rows
        want = [m for o in range(4) for m in product(range(o + 1), repeat=3) if sum(m) == o and (d == 3 or m[2] == 0)]
        loc = "src/Geom/BaseFunction.hpp"
        if sorted(rows) != sorted(want) or [sum(r) for r in rows] != sorted(map(sum, rows)):
            R.viol("order|%d" % d, loc, "diffOperatorOrderList%s is not every derivative up to order 3, by order" % sfx)
        dl = glob(P, "diffOperatorDimList" + sfx)
        for i, m in enumerate(rows):
            R.count("table_rows")
            if multi(dl[i][:sum(m)], d) != m:
                R.viol("dimlist|%d|%d" % (d, i), loc, "diffOperatorDimList%s[%d] = %s does not denote the derivative %s" % (sfx, i, dl[i], m))
        nc = glob(P, "diffNCombs" + sfx)
        for i, m in enumerate(rows):
            w = factorial(sum(m)) // (factorial(m[0]) * factorial(m[1]) * factorial(m[2]))
            R.count("table_rows")
            if nc[i] != w:
                R.viol("ncomb|%d|%d" % (d, i), loc, "diffNCombs%s[%d] is %d, derivative %s has %d index orders" % (sfx, i, nc[i], m, w))
        if glob(P, "ndiffSizC" + sfx) != SZ[d]:
            R.viol("siz|%d" % d, loc, "ndiffSizC%s is not %s" % (sfx, SZ[d]))
        ijk = glob(P, "diffOperatorIJK2I" + sfx)
        for n in (1, 2, 3):
            for idx in product(range(d), repeat=n):
                v = ijk[n]
                for k in idx:
                    v = v[k]
                R.count("table_rows")
                if not (0 <= v < len(rows)) or rows[v] != multi(idx, d):
                    R.viol("ijk|%d|%s" % (d, idx), loc, "diffOperatorIJK2I%s%s is row %d, which is not that derivative" % (sfx, idx, v))
    fac = glob(P, "factorials")
    for i, v in enumerate(fac):
        if v != factorial(i):
            R.viol("fact|%d" % i, "src/Geom/BaseFunction.hpp", "factorials[%d] is %d" % (i, v))
    df = glob(P, "dFactorials")
    for p in range(4):
        for q in range(4):
            w = factorial(p) // factorial(p - q) if q <= p else 0
            if df[p][q] != w:
                R.viol("dfact|%d%d" % (p, q), "src/Geom/BaseFunction.hpp", "dFactorials[%d][%d] is %d, not %d" % (p, q, df[p][q], w))


def fill(R, P, X, T):
    for d in (2, 3):
        f = X.fn("Base::FPolynomialFill%dD" % d, "Eigen")
        for rows in SZ[d]:
            for cols in SZ[d] + [c + 1 for c in SZ[d][:-1]]:
                I = Interp(P)
                A = I.A
                x = [A.var(k) for k in "xyz"]
                l = [A.var("l" + k, positive=True) for k in "xyz"]
                t = I.store(Mat(rows, cols, [A.var("junk%d" % k) for k in range(rows * cols)]))
                try:
                    I.call(f, [t] + [I.store(v) for v in x + l] + [A.const(rows), A.const(cols)])
                    m = I.mat(t)
                    bad = [v for v in m.v if not isinstance(v, Q)]
                    if bad:
                        raise Undecided(str(bad[0]))
                except SOFT as ex:
                    R.undecided("FPolynomialFill%dD %dx%d" % (d, rows, cols,), ex, "undecided")
                    continue
                for i in range(rows):
                    for j in range(cols):
                        R.count("basis_entries")
                        p, q = T[d][j], T[d][i]
                        w = A.const(1)
                        for k in range(3):
                            if q[k] > p[k]:
                                w = A.const(0)
                                break
                            w = w * A.const(F(factorial(p[k]), factorial(p[k] - q[k]))) * x[k] ** (p[k] - q[k]) / l[k] ** q[k]
                        if not (m.v[i * cols + j] - w).iszero():
                            R.viol("fill|%d|%d|%d|%d|%d" % (d, rows, cols, i, j), X.where(f), "FPolynomialFill%dD (%dx%d): entry (%d,%d) is %s, "
                                   "derivative %s of monomial %s scaled is %s" % (d, rows, cols, i, j, m.v[i * cols + j], q, p, w))


def ndof(R, P, X, T):
    for d in (2, 3):
        f = X.fn("Base::GetNDof", r"GetNDof<%d" % d)
        for o in range(4):
            I = Interp(P)
            v = I.int(I.call(f, [I.A.const(o)]))
            R.count("ndof")
            if v != comb(o + d, d):
                R.viol("ndof|%d|%d" % (d, o), X.where(f), "GetNDof<%d>(%d) is %d, not %d" % (d, o, v, comb(o + d, d)))


def tensor(A, d, o, T, val):
    """full tensor (dict index tuple -> value) of the order-o derivatives, val(row)"""
    rows = T[d]
    return {ix: val(rows.index(multi(ix, d))) for ix in product(range(d), repeat=o)}


def linmap(R, P, X, T):
    for d in (2, 3):
        f = X.fn("Base::ConvertDiffsLinMap", r"ConvertDiffsLinMap<%d, Eigen::Matrix<double, -1" % d)
        for n in SZ[d]:
            I = Interp(P)
            A = I.A
            u = [A.var("u%d" % i) for i in range(n)]
            r = [A.var("r%d%d" % (i, j)) for i in range(3) for j in range(3)]
            m = I.store(Mat(n, 1, list(u)))
            I.call(f, [m, I.store(Mat(3, 3, r))])
            check_rows(R, X, f, d, n, I.mat(m).v, [lin_row(A, d, T, u, r, i) for i in range(n)], T, "ConvertDiffsLinMap<%d>" % d, "lin")


def lin_row(A, d, T, u, r, i):
    m = T[d][i]
    idx = [k for k in range(3) for _ in range(m[k])]
    if not idx:
        return u[0]
    s = A.const(0)
    for a in product(range(d), repeat=len(idx)):
        t = u[T[d].index(multi(a, d))]
        for p, q in zip(idx, a):
            t = t * r[p * 3 + q]
        s = s + t
    return s


def check_rows(R, X, f, d, n, got, want, T, nm, key):
    for i in range(n):
        R.count("chain_rule_rows")
        if not isinstance(got[i], Q):
            raise Undecided("%s row %d is %s" % (nm, i, got[i]))
        if not (got[i] - want[i]).iszero():
            R.viol("%s|%d|%d|%d" % (key, d, n, i), X.where(f), "%s with %d rows: row %d is not derivative %s of the transformed function" % (nm, n, i, T[d][i]))


def norms(R, P, X, T):
    for d in (2, 3):
        for o in range(4):
            f = X.fn("Base::NormSymDiffOrderTensorV", r"NormSymDiffOrderTensorV<%d, %d, 1, const" % (d, o))
            I = Interp(P)
            A = I.A
            lo = 0 if o == 0 else SZ[d][o - 1]
            n = SZ[d][o] - lo
            a = [A.var("a%d" % k) for k in range(n)]
            b = [A.var("b%d" % k) for k in range(n)]
            v = I.q(I.call(f, [I.store(Mat(n, 1, a)), I.store(Mat(n, 1, b))]))
            ta = tensor(A, d, o, T, lambda r: a[r - lo])
            tb = tensor(A, d, o, T, lambda r: b[r - lo])
            w = I.sum([ta[k] * tb[k] for k in ta])
            R.count("norms")
            if not isinstance(v, Q):
                raise Undecided("norm %s" % v)
            if not (v - w).iszero():
                R.viol("norm|%d|%d" % (d, o), X.where(f), "NormSymDiffOrderTensorV<%d, %d> is not the full contraction of the two symmetric tensors" % (d, o))


def partitions(s):
    """set partitions of a list"""
    if not s:
        yield []
        return
    a, rest = s[0], s[1:]
    for p in partitions(rest):
        yield [[a]] + p
        for i in range(len(p)):
            yield p[:i] + [[a] + p[i]] + p[i + 1:]


def faa(A, d, T, i, inner, outer):
    """derivative row i of outer(inner(x)): inner[k](row) k-th component's derivative, outer(row)"""
    m = T[d][i]
    idx = [k for k in range(3) for _ in range(m[k])]
    if not idx:
        return outer(0)
    s = A.const(0)
    for p in partitions(list(range(len(idx)))):
        for comp in product(range(d), repeat=len(p)):
            t = outer(T[d].index(multi(comp, d)))
            for blk, c in zip(p, comp):
                t = t * inner(T[d].index(multi([idx[b] for b in blk], d)), c)
            s = s + t
    return s


def fullmap(R, P, X, T):
    for d in (2, 3):
        f = X.fn("Base::ConvertDiffsFullMap", r"ConvertDiffsFullMap<%d, Eigen" % d)
        for n in SZ[d]:
            I = Interp(P)
            A = I.A
            u = [A.var("u%d" % i) for i in range(n)]
            g = [A.var("g%d_%d" % (i, j)) for i in range(n) for j in range(3)]
            m = I.store(Mat(n, 1, list(u)))
            I.call(f, [m, I.store(Mat(n, 3, g))])
            want = [faa(A, d, T, i, lambda r, c: g[r * 3 + c], lambda r: u[r]) for i in range(n)]
            check_rows(R, X, f, d, n, I.mat(m).v, want, T, "ConvertDiffsFullMap<%d>" % d, "full")


JAC = {2: ([[2, 1], [1, 3]], [[0, 1], [-2, 1]]), 3: ([[2, 1, 0], [1, 3, 1], [0, -1, 2]], [[0, 1, 1], [2, 0, 1], [1, -1, 0]])}


def invmap(R, P, X, T):
    for d in (2, 3):
        for o in (1, 2, 3):
            f = X.fn("Base::DxDxi2DxiDx", r"DxDxi2DxiDx<%d, %d, Eigen" % (d, o))
            n = SZ[d][o]
            for J in JAC[d]:
                I = Interp(P)
                A = I.A
                vals = []
                for i in range(n):
                    for j in range(3):
                        if 1 <= i <= d and j < d:
                            vals.append(A.const(J[i - 1][j]))
                        elif j >= d or i == 0:
                            vals.append(A.const(0))
                        else:
                            vals.append(A.var("h%d_%d" % (i, j)))
                out = I.store(Mat(n, 3, [A.const(0)] * (3 * n)))
                I.call(f, [I.store(Mat(n, 3, vals)), out])
                m = I.mat(out)
                for i in range(1, n):
                    for j in range(d):
                        if not isinstance(m.v[i * 3 + j], Q):
                            raise Undecided("DxDxi2DxiDx entry: %s" % m.v[i * 3 + j])
                for i in range(1, n):
                    for j in range(d):
                        # x_j(xi(x)) = x_j
                        v = faa(A, d, T, i, lambda r, c: m.v[r * 3 + c], lambda r: vals[r * 3 + j])
                        w = 1 if i <= d and T[d][i][j] == 1 else 0
                        R.count("inverse_map_entries")
                        if not (v - A.const(w)).iszero():
                            R.viol("inv|%d|%d|%d|%d" % (d, o, i, j), X.where(f), "DxDxi2DxiDx<%d, %d>: derivative %s of x_%d(xi(x)) is not %d" %
                                   (d, o, T[d][i], j, w))


def cayley(A, tag, d=3):
    """general rotation with rational entries"""
    a, b, c = ((A.var("a" + tag), A.var("b" + tag), A.var("c" + tag)) if d == 3 else (A.const(0), A.const(0), A.var("c" + tag)))
    n = A.const(1) + a * a + b * b + c * c
    one = A.const(1)
    two = A.const(2)
    M = [one + a * a - b * b - c * c, two * (a * b - c), two * (a * c + b),
         two * (a * b + c), one - a * a + b * b - c * c, two * (b * c - a),
         two * (a * c - b), two * (b * c + a), one - a * a - b * b + c * c]
    return [v / n for v in M]


def mm(A, a, b, n, k, m):
    out = []
    for i in range(n):
        for j in range(m):
            s = A.const(0)
            for q in range(k):
                s = s + a[i * k + q] * b[q * m + j]
            out.append(s)
    return out


def tr(a, n, m):
    return [a[i * m + j] for j in range(m) for i in range(n)]


def per_obj(I, d=3, sym=True):
    A = I.A
    rot = [Mat(3, 3, [A.const(int(i == j)) for i in range(3) for j in range(3)])] + [Mat(3, 3, cayley(A, "%d" % k, d)) for k in (1, 2, 3)]
    tra = [Mat(3, 1, [A.const(0)] * 3)] + [Mat(3, 1, [A.var("t%d%d" % (k, i)) for i in range(3)]) for k in (1, 2, 3)]
    cen = [Mat(3, 1, [A.const(0)] * 3)] + [Mat(3, 1, [A.var("o%d%d" % (k, i)) for i in range(3)]) for k in (1, 2, 3)]
    return I.store(Rec("DNDS::Geom::Periodicity", {"rotation": Seq_(rot), "translation": Seq_(tra), "rotationCenter": Seq_(cen)})), rot, tra, cen


def periodic(R, P, X, T):
    ids = {-1: 1, -2: 2, -3: 3, -4: 1, -5: 2, -6: 3}
    I0 = Interp(P)
    for nm, want in (("PERIODIC_1", -1), ("PERIODIC_2", -2), ("PERIODIC_3", -3), ("PERIODIC_1_DONOR", -4), ("PERIODIC_2_DONOR", -5), ("PERIODIC_3_DONOR", -6)):
        q = [g for g in P.globals if g.endswith("::BC_ID_" + nm)]
        if q and I0.int(I0.glob(q[0])) != want:
            return          # identifiers renumbered: the table above no longer applies
    for idv, k in ids.items():
        I = Interp(P)
        A = I.A
        per, rot, tra, cen = per_obj(I)
        c = [A.var("x%d" % i) for i in range(3)]
        f, g = X.fn("Periodicity::TransCoord"), X.fn("Periodicity::TransCoordBack")
        y = I.mat(I.call(f, [I.store(Mat(3, 1, c)), A.const(idv)], this=per))
        w = mm(A, rot[k].v, [c[i] - cen[k].v[i] for i in range(3)], 3, 3, 1)
        w = [w[i] + cen[k].v[i] + tra[k].v[i] for i in range(3)]
        eq(R, X, f, "coord|%d" % idv, y.v, w, "TransCoord with id %d is not rotation about its own centre plus its own translation" % idv)
        z = I.mat(I.call(g, [I.store(y), A.const(idv)], this=per))
        eq(R, X, g, "coordback|%d" % idv, z.v, c, "TransCoordBack(TransCoord(x, %d), %d) is not x" % (idv, idv))
        for d in (2, 3):
            I = Interp(P)
            A = I.A
            per, rot, tra, cen = per_obj(I, d)
            r = [rot[k].v[i * 3 + j] for i in range(d) for j in range(d)]
            v = [A.var("v%d" % i) for i in range(d * 2)]
            f = X.fn("Periodicity::TransVector", r"TransVector<%d, 2>" % d)
            g = X.fn("Periodicity::TransVectorBack", r"TransVectorBack<%d, 2>" % d)
            y = I.mat(I.call(f, [I.store(Mat(d, 2, v)), A.const(idv)], this=per))
            eq(R, X, f, "vec|%d|%d" % (d, idv), y.v, mm(A, r, v, d, d, 2), "TransVector<%d> with id %d does not rotate the vector" % (d, idv))
            z = I.mat(I.call(g, [I.store(y), A.const(idv)], this=per))
            eq(R, X, g, "vecback|%d|%d" % (d, idv), z.v, v, "TransVectorBack<%d> does not undo TransVector (id %d)" % (d, idv))
            v = [A.var("m%d" % i) for i in range(d * d)]
            f = X.fn("Periodicity::TransMat", r"TransMat<%d>" % d)
            g = X.fn("Periodicity::TransMatBack", r"TransMatBack<%d>" % d)
            y = I.mat(I.call(f, [I.store(Mat(d, d, v)), A.const(idv)], this=per))
            eq(R, X, f, "mat|%d|%d" % (d, idv), y.v, mm(A, mm(A, r, v, d, d, d), tr(r, d, d), d, d, d), "TransMat<%d> with id %d is not R M R^T" % (d, idv))
            z = I.mat(I.call(g, [I.store(y), A.const(idv)], this=per))
            eq(R, X, g, "matback|%d|%d" % (d, idv), z.v, v, "TransMatBack<%d> does not undo TransMat (id %d)" % (d, idv))
            f = X.fn("Base::CFVPeriodicity::TransDiValueInplace", r"TransDiValueInplace<%d, Eigen" % d)
            g = X.fn("Base::CFVPeriodicity::TransDiValueBackInplace", r"TransDiValueBackInplace<%d, Eigen" % d)
            for n in SZ[d][:3]:
                u = [A.var("u%d" % i) for i in range(n)]
                m = I.store(Mat(n, 1, list(u)))
                I.call(f, [m, A.const(idv)], this=per)
                r9 = rot[k].v
                eq(R, X, f, "di|%d|%d|%d" % (d, idv, n), I.mat(m).v, [lin_row(A, d, T, u, r9, i) for i in range(n)],
                   "TransDiValueInplace<%d> with id %d (%d rows) does not rotate the derivatives" % (d, idv, n))
                I.call(g, [m, A.const(idv)], this=per)
                eq(R, X, g, "diback|%d|%d|%d" % (d, idv, n), I.mat(m).v, u, "TransDiValueBackInplace<%d> does not undo TransDiValueInplace (id %d, %d rows)"
                   % (d, idv, n))
    R.need("transform_components", 50)


def bits(R, P, X, T):
    f, g = X.fn("Periodicity::GetCoordByBits"), X.fn("Periodicity::GetCoordBackByBits")
    for b in range(8):
        I = Interp(P)
        A = I.A
        # rotations about the z axis with their own angle: compositions stay small
        per, rot, tra, cen = per_obj(I, 2)
        c = [A.var("x%d" % i) for i in range(3)]
        bt = I.store(Rec("DNDS::Geom::NodePeriodicBits", {"__v": A.const(b)}))
        y = I.mat(I.call(f, [I.store(Mat(3, 1, c)), bt], this=per))
        z = I.mat(I.call(g, [I.store(y), bt], this=per))
        eq(R, X, g, "bits|%d" % b, z.v, c, "GetCoordBackByBits does not undo GetCoordByBits for periodic bits %d" % b)
        # each set bit applies the transformation of its own periodicity
        for k in (1, 2, 3):
            dep = any(A.name[a] in ("t%d0" % k, "t%d1" % k, "t%d2" % k) for v in y.v if isinstance(v, Q) for a in v.atoms())
            R.count("bit_transforms")
            if dep != bool(b & (1 << (k - 1))):
                R.viol("bitsel|%d|%d" % (b, k), X.where(f), "GetCoordByBits: bits %d %s periodicity %d" % (b, "apply" if dep else "do not apply", k))


def eq(R, X, f, key, got, want, text):
    if any(not isinstance(v, Q) for v in got):
        raise Undecided("%s: %s" % (f.q, [v for v in got if not isinstance(v, Q)][:1]))
    R.count("transform_components", len(want))
    if len(got) != len(want) or any(not (a - b).iszero() for a, b in zip(got, want)):
        R.viol(key, X.where(f), text)


def geometric(R, P, X, T):
    I = Interp(P)
    A = I.A
    v = [A.var("v%d" % i) for i in range(3)]
    w = [A.var("w%d" % i) for i in range(3)]
    cr = [v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]]
    f = X.fn("CrossVecToMat")
    M = I.mat(I.call(f, [I.store(Mat(3, 1, v))]))
    eq(R, X, f, "crossmat", mm(A, M.v, w, 3, 3, 1), cr, "CrossVecToMat(v) w is not v x w")
    g = X.fn("CrossMatToVec")
    eq(R, X, g, "crossvec", I.mat(I.call(g, [I.store(M)])).v, v, "CrossMatToVec does not undo CrossVecToMat")
    # facial normals
    f = X.fn("FacialJacobianToNormVec", "<3>")
    J = [A.const(0)] * 9
    for i in range(3):
        J[i * 3], J[i * 3 + 1] = v[i], w[i]
    n = I.mat(I.call(f, [I.store(Mat(3, 3, J))]))
    eq(R, X, f, "norm3", n.v, cr, "FacialJacobianToNormVec<3> is not the area vector of the face")
    f = X.fn("FacialJacobianToNormVec", "<2>")
    J = [A.const(0)] * 9
    J[0], J[3] = v[0], v[1]
    n = I.mat(I.call(f, [I.store(Mat(3, 3, J))]))
    eq(R, X, f, "norm2", n.v, [v[1], -v[0], A.const(0)], "FacialJacobianToNormVec<2> is not the outward normal of the edge")
    # orthonormal local bases
    for d in (2, 3):
        f = X.fn("NormBuildLocalBaseV", "<%d>" % d)
        if d == 2:
            t = A.var("t")
            n = [(A.const(1) - t * t) / (A.const(1) + t * t), A.const(2) * t / (A.const(1) + t * t)]
            case = [n]
        else:
            s, t = A.var("s"), A.var("t")
            q = A.const(1) + s * s + t * t
            case = [[A.const(2) * s / q, A.const(2) * t / q, (s * s + t * t - A.const(1)) / q]]
        for n in case:
            for assume in ([None] if d == 2 else [True, False]):
                I2 = Interp(P, A)
                if assume is not None:
                    def truth(x, o=I2.truth, assume=assume):
                        r = o(x)
                        return assume if isinstance(r, Cnd) else r
                    I2.truth = truth
                m = I2.mat(I2.call(f, [I2.store(Mat(d, 1, n))]))
                if any(not isinstance(x, Q) for x in m.v):
                    raise Undecided("NormBuildLocalBaseV<%d>: %s" % (d, m.v))
                g = mm(A, tr(m.v, d, d), m.v, d, d, d)
                eq(R, X, f, "base|%d|%s" % (d, assume), g, [A.const(int(i == j)) for i in range(d) for j in range(d)],
                   "NormBuildLocalBaseV<%d> is not orthonormal" % d)
                eq(R, X, f, "base0|%d|%s" % (d, assume), [m.v[i * d] for i in range(d)], n, "NormBuildLocalBaseV<%d>: the first base vector is not the normal" % d)
    # rotations
    for nm in ("RotX", "RotY", "RotZ"):
        f = X.fn(nm)
        I = Interp(P)
        A = I.A
        m = I.mat(I.call(f, [I.store(A.var("th"))]))
        if any(not isinstance(x, Q) for x in m.v):
            raise Undecided(nm)
        sn = [a for v in m.v for a in v.atoms() if A.kind[a] in ("sin", "std::sin")]
        cs = [a for v in m.v for a in v.atoms() if A.kind[a] in ("cos", "std::cos")]
        if len(set(sn)) == 1 and len(set(cs)) == 1:
            mp = {}
            t = A.var("half")
            mp[sn[0]] = A.const(2) * t / (A.const(1) + t * t)
            mp[cs[0]] = (A.const(1) - t * t) / (A.const(1) + t * t)
            r = [v.subs(mp) for v in m.v]
            eq(R, X, f, "rot|" + nm, mm(A, r, tr(r, 3, 3), 3, 3, 3), [A.const(int(i == j)) for i in range(3) for j in range(3)], nm + " is not orthogonal")
            k = "XYZ".index(nm[3])
            ax = [A.const(int(i == k)) for i in range(3)]
            eq(R, X, f, "rotaxis|" + nm, mm(A, r, ax, 3, 3, 1), ax, nm + " does not leave its axis fixed")
            i, j = (k + 1) % 3, (k + 2) % 3
            eq(R, X, f, "rotdir|" + nm, [r[j * 3 + i]], [mp[sn[0]]], nm + " does not rotate in the positive direction")
        else:
            raise Undecided(nm + " sin/cos")
