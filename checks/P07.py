"""P07: shape functions interpolate, and every derivative table is the derivative it stands for."""
from prog import *
from refelem import *

ORDER = {"Line2": 1, "Tri3": 1, "Quad4": 1, "Tet4": 1, "Hex8": 1, "Prism6": 1, "Pyramid5": 1,
         "Line3": 2, "Tri6": 2, "Quad9": 2, "Tet10": 2, "Hex27": 2, "Prism18": 2, "Pyramid14": 2}
DIM = {"Li": 1, "Tr": 2, "Qu": 2, "Te": 3, "He": 3, "Pr": 3, "Py": 3}
NODES = {"Line2": 2, "Line3": 3, "Tri3": 3, "Tri6": 6, "Quad4": 4, "Quad9": 9, "Tet4": 4, "Tet10": 10, "Hex8": 8, "Hex27": 27,
         "Prism6": 6, "Prism18": 18, "Pyramid5": 5, "Pyramid14": 14}


def derivs(dim, maxo):
    """multi-indices (per derivative order, set) of all partial derivatives of that order"""
    return [[m for m in product(range(o + 1), repeat=3) if sum(m) == o and all(m[k] == 0 for k in range(dim, 3))] for o in range(maxo + 1)]


def run(R, tier):
    P = Program([VERIF + "/units/algebra_elem.cpp", REPO + "/src/Geom/Elements.cpp"])
    X = Ref(P)
    R.rule("The shape functions of every element type are evaluated by abstract interpretation of ShapeFunc_DiNj and Element::Get*Nj over "
           "formal coordinates; the result is a rational function in normal form. Decided exactly: N_i is 1 at node i and 0 at the others "
           "(standard coordinates), polynomials up to the element order are reproduced, each row of GetD1Nj / GetD01Nj / GetDiNj (orders "
           "0..3) equals the formal partial derivative that diffOperatorOrderList(2D) assigns to the row, and Jacobian and face normal "
           "helpers are the derivatives of the mapping and the area vector.")
    R.assume("floating-point rounding is not modelled; pyramids are judged at zeta <= 1 - 1e-6 (the apex is regularised by the code)")
    std = X.fn("Elem::GetStandardCoord")
    getN = X.fn("Elem::Element::GetNj")
    getD1 = X.fn("Elem::Element::GetD1Nj")
    getD01 = X.fn("Elem::Element::GetD01Nj")
    getDi = X.fn("Elem::Element::GetDiNj")
    tab = tables(R, P)
    for e in X.elems:
        if e not in NODES:
            continue
        try:
            element(R, P, X, e, std, getN, getD1, getD01, getDi, tab)
        except SOFT as ex:
            R.undecided("%s" % (e,), ex, "undecided_elements")
    R.need("elements", 8)
    jacobian(R, P, X)


def tables(R, P):
    """row -> multi-index, as the code's own tables say; checked to enumerate every derivative once"""
    out = {}
    for dim, nm, n in ((3, "diffOperatorOrderList", 20), (2, "diffOperatorOrderList2D", 10)):
        q = [g for g in P.globals if g.endswith("Base::" + nm)]
        if not q:
            continue
        I = Interp(P)
        try:
            rows = [tuple(r + [0] * (3 - len(r))) for r in I.pylist(I.glob(q[0]))]
        except Undecided as ex:
            raise AnalysisError("%s: %s" % (nm, ex))
        out[dim] = rows
        R.count("derivative_rows", len(rows))
        want = [m for l in derivs(dim, 3) for m in l]
        if sorted(rows) != sorted(want) or [sum(r) for r in rows] != sorted(sum(r) for r in rows):
            R.viol("table|" + nm, "src/Geom/BaseFunction.hpp", "%s does not list every partial derivative up to order 3 once, "
                   "by order" % nm)
    out[1] = [(k, 0, 0) for k in range(4)]
    return out


def element(R, P, X, e, std, getN, getD1, getD01, getDi, tab):
    I = Interp(P)
    A = I.A
    dim = DIM[e[:2]]
    nn = NODES[e]
    c = I.mat(I.call(std, [A.const(X.E[e])]))
    if (c.r, c.c) != (3, nn):
        R.viol("std|" + e, X.where(std), "GetStandardCoord(%s) has %d columns, the element has %d nodes" % (e, c.c, nn))
        return
    xs = [[c.v[k * nn + j].constant() for k in range(3)] for j in range(nn)]
    names = ("xi", "et", "zt")
    if e.startswith("Pyramid"):
        I.ranges = {"zt": (F(-1), 1 - F(1, 10 ** 6))}
    x = [A.var(names[k]) if k < dim else A.const(0) for k in range(3)]
    p = Mat(3, 1, x)

    def elem():
        return I.store(Rec("DNDS::Geom::Elem::Element", {"type": A.const(X.E[e])}))

    def run(fn, pt, *more):
        out = I.store(Mat(0, 0, []))
        I.call(fn, [I.store(pt), out] + list(more), this=elem())
        m = I.mat(out)
        if not isinstance(m, Mat) or any(not isinstance(v, Q) for v in m.v):
            raise Undecided("%s yields %s" % (fn.q, m if not isinstance(m, Mat) else [v for v in m.v if not isinstance(v, Q)][:1]))
        return m
    N = run(getN, p)
    R.count("elements")
    if (N.r, N.c) != (1, nn):
        R.viol("N|shape|" + e, X.where(getN), "%s: %d shape functions for %d nodes" % (e, N.c, nn))
        return
    shp = [f for f in P.by_q.get("DNDS::Geom::Elem::ShapeFunc_DiNj", ()) if not f.dep]
    loc = shp[0].loc() if shp else X.where(getN)
    # interpolation
    for j in range(nn):
        v = run(getN, Mat(3, 1, [A.const(t) for t in xs[j]]))
        for i in range(nn):
            R.count("delta_values")
            if abs(v.v[i].constant() - (1 if i == j else 0)) > F(1, 10 ** 9):
                R.viol("delta|%s|%d" % (e, i), loc, "%s: shape function %d is %.6g at node %d" % (e, i, v.v[i].constant(), j))
    # reproduction of polynomials up to the order of the element
    for m in product(range(ORDER[e] + 1), repeat=3):
        if sum(m) > ORDER[e] or any(m[k] for k in range(dim, 3)):
            continue
        R.count("reproduced_monomials")
        s = A.const(0)
        for j in range(nn):
            w = F(1)
            for k in range(3):
                w *= xs[j][k] ** m[k]
            if w:
                s = s + N.v[j] * A.const(w)
        t = A.const(1)
        for k in range(3):
            for _ in range(m[k]):
                t = t * x[k]
        if not (s - t).iszero():
            R.viol("repro|%s|%d%d%d" % ((e,) + m), loc, "%s: the shape functions do not reproduce xi^%d eta^%d zeta^%d" % ((e,) + m))
    # derivatives
    cache = {}

    def der(j, m):
        if sum(m) == 0:
            return N.v[j]
        if (j, m) not in cache:
            k = [i for i in range(3) if m[i]][0]
            b = tuple(m[i] - (i == k) for i in range(3))
            cache[j, m] = der(j, b).diff(x[k])
        return cache[j, m]

    def rows(M, ms, what, fn):
        if M.r != len(ms) or M.c != nn:
            R.viol("rows|%s|%s" % (what, e), X.where(fn), "%s: %s has shape %dx%d, %dx%d is expected" % (e, what, M.r, M.c, len(ms), nn))
            return
        for r, m in enumerate(ms):
            for j in range(nn):
                R.count("derivative_entries")
                w = der(j, m) if all(m[k] == 0 for k in range(dim, 3)) else A.const(0)
                if not (M.v[r * nn + j] - w).iszero():
                    R.viol("deriv|%s|%s|%d|%d" % (what, e, r, j), loc, "%s: row %d of %s, node %d is not the derivative d^%d/dxi^%d deta^%d dzeta^%d of "
                           "shape function %d" % (e, r, what, j, sum(m), m[0], m[1], m[2], j))
    unit = [(1, 0, 0), (0, 1, 0), (0, 0, 1)]
    rows(run(getD1, p), unit, "GetD1Nj", getD1)
    rows(run(getD01, p), [(0, 0, 0)] + unit, "GetD01Nj", getD01)
    ncount = {1: [1, 2, 3, 4], 2: [1, 3, 6, 10], 3: [1, 4, 10, 20]}[dim]
    for o in range(4):
        rows(run(getDi, p, A.const(o)), tab[dim][:ncount[o]], "GetDiNj(%d)" % o, getDi)


def jacobian(R, P, X):
    I = Interp(P)
    A = I.A
    n = 5
    cs = Mat(3, n, [A.var("c%d_%d" % (k, j)) for k in range(3) for j in range(n)])
    D = Mat(4, n, [A.var("d%d_%d" % (k, j)) for k in range(4) for j in range(n)])
    fJ, fP = X.fn("Elem::ShapeJacobianCoordD01Nj"), X.fn("Elem::PPhysicsCoordD01Nj")
    try:
        J = I.mat(I.call(fJ, [I.store(cs), I.store(D)]))
        p = I.mat(I.call(fP, [I.store(cs), I.store(D)]))
        for i in range(3):
            for k in range(4):
                w = I.sum([cs.v[i * n + j] * D.v[k * n + j] for j in range(n)])
                got = p.v[i] if k == 0 else J.v[i * 3 + k - 1]
                R.count("mapping_entries")
                if not (got - w).iszero():
                    R.viol("map|%d%d" % (i, k), X.where(fJ if k else fP), "the %s entry (%d,%d) is not the sum of nodal coordinates times shape %s" %
                           ("Jacobian" if k else "coordinate", i, k - 1, "derivatives" if k else "functions"))
    except SOFT as ex:
        R.undecided("mapping", ex, "undecided_mapping")
