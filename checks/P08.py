"""P08: the element topology tables are consistent with the reference geometry."""
from prog import *
from refelem import *

TYPES = {  # name: (dim, order, vertices, nodes, faces, space, CGNS element type number)
    "Line2": (1, 1, 2, 2, 0, "LineSpace", 3), "Line3": (1, 2, 2, 3, 0, "LineSpace", 4),
    "Tri3": (2, 1, 3, 3, 3, "TriSpace", 5), "Tri6": (2, 2, 3, 6, 3, "TriSpace", 6),
    "Quad4": (2, 1, 4, 4, 4, "QuadSpace", 7), "Quad9": (2, 2, 4, 9, 4, "QuadSpace", 9),
    "Tet4": (3, 1, 4, 4, 4, "TetSpace", 10), "Tet10": (3, 2, 4, 10, 4, "TetSpace", 11),
    "Pyramid5": (3, 1, 5, 5, 5, "PyramidSpace", 12), "Pyramid14": (3, 2, 5, 14, 5, "PyramidSpace", 13),
    "Prism6": (3, 1, 6, 6, 5, "PrismSpace", 14), "Prism18": (3, 2, 6, 18, 5, "PrismSpace", 16),
    "Hex8": (3, 1, 8, 8, 6, "HexSpace", 17), "Hex27": (3, 2, 8, 27, 6, "HexSpace", 19)}
PAIR = {"Line2": "Line3", "Tri3": "Tri6", "Quad4": "Quad9", "Tet4": "Tet10", "Hex8": "Hex27", "Prism6": "Prism18", "Pyramid5": "Pyramid14"}
VARIANTS = {"Tet10": 3, "Pyramid14": 2}
# VTK cell types: vertices, and the vertex pair each further node is the midpoint of
VTK = {3: (2, []), 5: (3, []), 9: (4, []), 10: (4, []), 12: (8, []), 13: (6, []), 14: (5, []),
       21: (2, [(0, 1)]),
       22: (3, [(0, 1), (1, 2), (2, 0)]),
       23: (4, [(0, 1), (1, 2), (2, 3), (3, 0)]),
       24: (4, [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)]),
       25: (8, [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]),
       26: (6, [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)]),
       27: (5, [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (2, 4), (3, 4)])}
VTKSPACE = {3: "LineSpace", 4: "LineSpace", 21: "LineSpace", 5: "TriSpace", 22: "TriSpace", 9: "QuadSpace", 23: "QuadSpace", 10: "TetSpace",
            24: "TetSpace", 12: "HexSpace", 25: "HexSpace", 13: "PrismSpace", 26: "PrismSpace", 14: "PyramidSpace", 27: "PyramidSpace"}


class Topo(Ref):
    def __init__(self, P):
        super().__init__(P)
        self.I = Interp(P)
        self.A = self.I.A
        self.c = {}

    def elem(self, e):
        return self.I.store(Rec("DNDS::Geom::Elem::Element", {"type": self.A.const(self.E[e])}))

    def num(self, q, *args, this=None):
        return self.I.int(self.I.call(self.fn(q), [self.A.const(a) for a in args], this=this))

    def name(self, v):
        return {x: n for n, x in self.E.items()}.get(v, "#%s" % v)

    def std(self, e):
        if ("std", e) not in self.c:
            m = self.I.mat(self.I.call(self.fn("Elem::GetStandardCoord"), [self.A.const(self.E[e])]))
            self.c["std", e] = [tuple(m.v[k * m.c + j].constant() for k in range(3)) for j in range(m.c)]
        return self.c["std", e]

    def N(self, e, x):
        """shape functions of e at formal point x"""
        out = self.I.store(Mat(0, 0, []))
        self.I.call(self.fn("Elem::Element::GetNj"), [self.I.store(Mat(3, 1, x)), out], this=self.elem(e))
        m = self.I.mat(out)
        if any(not isinstance(v, Q) for v in m.v):
            raise Undecided("shape functions of " + e)
        return m.v

    def extract(self, q, e, pre, n, size):
        """run Extract*(…, nodes, out) on nodes 0..n-1; out has size entries"""
        I, A = self.I, self.A
        nodes = I.store(Seq_([A.const(k) for k in range(n)]))
        out = I.store(Seq_([A.const(-1)] * size))
        I.call(self.fn(q), [A.const(x) for x in pre] + [nodes, out], this=self.elem(e))
        return [I.int(x) for x in I.rv(out).e]


def run(R, tier):
    P = Program([VERIF + "/units/algebra_elem.cpp", REPO + "/src/Geom/Elements.cpp"])
    T = Topo(P)
    R.rule("Every table of the element descriptions is obtained by constant propagation through the code that fills and reads it "
           "(Element::ObtainFace/ExtractFaceNodes, elevation spans, bisection lists, VTK and CGNS numbering) and compared with the "
           "reference geometry: faces have their declared type, are outward oriented and closed (each edge used once per direction, "
           "divergence theorem gives the element volume exactly), the trace of the element's shape functions on a face are the face's "
           "shape functions; elevated nodes are the centroids of their spans; bisected sub-elements are positively oriented, tile the "
           "parent and match face to face, and the variant chosen is the one that uses the shortest diagonal; exported node orders "
           "are those of the VTK cell types, CGNS type maps are mutually inverse.")
    R.assume("VTK and CGNS node and type numbering as published")
    for e in sorted(T.E, key=lambda k: T.E[k]):
        if e not in TYPES:
            continue
        R.count("elements")
        for part in (basics, faces, elevation, bisect, vtk, cgns):
            try:
                part(R, T, e)
            except SOFT as ex:
                R.undecided("%s %s" % (e, part.__name__,), ex, "undecided")
    R.need("elements", 10)


def basics(R, T, e):
    d, o, nv, nn, nf, sp, _ = TYPES[e]
    for nm, want in (("GetDim", d), ("GetOrder", o), ("GetNumVertices", nv), ("GetNumNodes", nn), ("GetNumFaces", nf), ("GetParamSpace", T.S[sp])):
        f = T.fn("Elem::Element::" + nm)
        got = T.I.int(T.I.call(f, [], this=T.elem(e)))
        R.count("descriptors")
        if got != want:
            R.viol("basic|%s|%s" % (nm, e), T.where(f), "Element{%s}.%s() is %s, not %s" % (e, nm, got, want))
    f = T.fn("Elem::GetElemO1")
    got = T.name(T.I.int(T.I.call(f, [T.A.const(T.S[sp])])))
    want = [a for a, b in PAIR.items() if e in (a, b)][0]
    if got != want:
        R.viol("o1|" + sp, T.where(f), "GetElemO1(%s) is %s" % (sp, got))


def param(T, dim, sp):
    names = ("s", "t", "u")
    k = TYPES_DIM[sp]
    return [T.A.var(names[i]) if i < k else T.A.const(0) for i in range(3)]


TYPES_DIM = SPACES


def integrate(q, T, sp):
    """integral of a polynomial in s, t over the reference domain of sp"""
    if q.d:
        raise Undecided("not a polynomial")
    r = F(0)
    for m, c in q.n.items():
        ex = {"s": 0, "t": 0, "u": 0}
        for a, k in m:
            ex[T.A.name[a]] += k
        r += c * monomial_integral(sp, ex["s"], ex["t"], ex["u"])
    return r


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def faces(R, T, e):
    d, o, nv, nn, nf, sp, _ = TYPES[e]
    if d < 2:
        return
    A = T.A
    fx = T.fn("Elem::Element::ExtractFaceNodes")
    X = T.std(e)
    vol = A.const(0)
    area = [F(0)] * 3
    div = F(0)
    edges = {}
    for i in range(nf):
        ft = T.name(T.num("Elem::GetFaceType", T.E[e], i))
        R.count("faces")
        if ft not in TYPES or TYPES[ft][0] != d - 1 or TYPES[ft][1] != o:
            R.viol("ftype|%s|%d" % (e, i), T.where(T.fn("Elem::GetFaceType")), "face %d of %s has type %s" % (i, e, ft))
            continue
        fd, fo, fnv, fnn, _, fsp, _ = TYPES[ft]
        nodes = T.extract("Elem::Element::ExtractFaceNodes", e, [i], nn, fnn)
        if any(not 0 <= k < nn for k in nodes) or len(set(nodes)) != fnn or any(k >= nv for k in nodes[:fnv]):
            R.viol("fnodes|%s|%d" % (e, i), T.where(fx), "face %d of %s: node list %s is not %d distinct nodes starting with %d vertices" %
                   (i, e, nodes, fnn, fnv))
            continue
        s = param(T, fd, fsp)
        M = T.N(ft, s)
        x = [T.I.sum([M[j] * A.const(X[nodes[j]][k]) for j in range(fnn)]) for k in range(3)]
        ds = [v.diff(s[0]) for v in x]
        if d == 2:
            n = [ds[1], -ds[0], A.const(0)]
            edges[(nodes[0], nodes[1])] = edges.get((nodes[0], nodes[1]), 0) + 1
            for a in (nodes[0], nodes[1]):
                edges[("v", a, nodes.index(a))] = 1
        else:
            n = cross(ds, [v.diff(s[1]) for v in x])
            for a in range(fnv):
                k = (nodes[a], nodes[(a + 1) % fnv])
                edges[k] = edges.get(k, 0) + 1
        for k in range(3):
            area[k] += integrate(n[k], T, fsp)
        f = integrate(T.I.sum([x[k] * n[k] for k in range(3)]), T, fsp)
        if f < 0 or (f == 0 and False):
            pass
        div += f
        # outward: the face centroid seen from the element centroid
        cen = [sum(X[v][k] for v in range(nv)) / F(nv) for k in range(3)]
        out = integrate(T.I.sum([(x[k] - A.const(cen[k])) * n[k] for k in range(3)]), T, fsp)
        if out <= 0:
            R.viol("orient|%s|%d" % (e, i), T.where(fx), "face %d of %s (nodes %s) is not oriented outwards" % (i, e, nodes))
        # trace
        T.I.ranges = {}
        Ne = trace_pyr(T, e, x) if e.startswith("Pyr") else T.N(e, x)
        for j in range(nn):
            R.count("trace_functions")
            want = M[nodes.index(j)] if j in nodes else A.const(0)
            if not (Ne[j] - want).iszero():
                R.viol("trace|%s|%d|%d" % (e, i, j), T.where(fx), "on face %d of %s (%s, nodes %s) shape function %d of the element is not the shape function "
                       "of the face" % (i, e, ft, nodes, j))
    want = monomial_integral(sp, 0, 0, 0)
    if any(area) or div != want * d:
        R.viol("closed|" + e, T.where(fx), "the faces of %s do not bound it: sum of face area vectors %s, divergence theorem volume %s, volume %s" %
               (e, [str(a) for a in area], div / d, want))
    if d == 3:
        for (a, b), k in edges.items():
            if k != 1 or edges.get((b, a)) != 1:
                R.viol("edge|%s" % e, T.where(fx), "edge %d-%d of %s is not shared by exactly two faces in opposite directions" % (a, b, e))


def trace_pyr(T, e, x):
    """away from the regularised apex"""
    y = [T.A.var("X%d" % k) for k in range(3)]
    T.I.ranges = {"X2": (F(-1), 1 - F(1, 10 ** 6))}
    try:
        N = T.N(e, y)
    finally:
        T.I.ranges = {}
    mp = {next(iter(y[k].n))[0][0]: x[k] for k in range(3)}
    return [q.subs(mp) for q in N]


def elevation(R, T, e):
    n = T.num("Elem::GetElemElevation_O1O2_NumNode", T.E[e])
    f = T.fn("Elem::Element::ExtractElevNodeSpanNodes")
    el = T.name(T.num("Elem::GetElemElevation_O1O2_ElevatedType", T.E[e]))
    if e not in PAIR:
        if n > 0:
            R.viol("elev|o2|" + e, T.where(f), "%s declares %d elevation nodes" % (e, n))
        return
    if el != PAIR[e]:
        R.viol("elev|type|" + e, T.where(T.fn("Elem::GetElemElevation_O1O2_ElevatedType")), "%s is elevated to %s" % (e, el))
        return
    nn = TYPES[e][3]
    if nn + n != TYPES[el][3]:
        R.viol("elev|num|" + e, T.where(T.fn("Elem::GetElemElevation_O1O2_NumNode")), "%s + %d elevation nodes do not make a %s" % (e, n, el))
        return
    X1, X2 = T.std(e), T.std(el)
    for k in range(nn):
        if X1[k] != X2[k]:
            R.viol("elev|vert|" + e, T.where(T.fn("Elem::GetStandardCoord")), "node %d of %s and %s differ" % (k, e, el))
    for k in range(n):
        st = T.name(T.num("Elem::GetElemElevation_O1O2_NodeSpanType", T.E[e], k))
        R.count("elevation_nodes")
        if st not in TYPES:
            R.viol("elev|span|%s|%d" % (e, k), T.where(f), "elevation node %d of %s has span type %s" % (k, e, st))
            continue
        ns = TYPES[st][3]
        nodes = T.extract("Elem::Element::ExtractElevNodeSpanNodes", e, [k], nn, ns)
        if any(not 0 <= a < nn for a in nodes) or len(set(nodes)) != ns:
            R.viol("elev|nodes|%s|%d" % (e, k), T.where(f), "elevation node %d of %s: span nodes %s" % (k, e, nodes))
            continue
        c = tuple(sum(X1[a][i] for a in nodes) / F(ns) for i in range(3))
        if c != X2[nn + k]:
            R.viol("elev|pos|%s|%d" % (e, k), T.where(f), "elevation node %d of %s: the centroid of its span %s is not the position of node %d of %s" %
                   (k, e, nodes, nn + k, el))
        # the span is a proper sub-entity: its own centroid through its shape functions (orientation of quads/hexes)
        if st != "Line2" and TYPES[st][0] >= 2:
            s = param(T, TYPES[st][0], TYPES[st][5])
            M = T.N(st, s)
            x = [T.I.sum([M[j] * T.A.const(X1[nodes[j]][i]) for j in range(ns)]) for i in range(3)]
            ds = [[v.diff(p) for v in x] for p in s[:TYPES[st][0]]]
            if TYPES[st][0] == 2:
                nvec = cross(ds[0], ds[1])
                sq = T.I.sum([v * v for v in nvec])
                tot = [integrate(v, T, TYPES[st][5]) for v in nvec]
                if not sq.isconst() or not any(tot):
                    R.viol("elev|twist|%s|%d" % (e, k), T.where(f), "elevation node %d of %s: the span %s is not listed in cyclic order" % (k, e, nodes))


def subvol(T, sub, pts):
    """signed volume of a straight sub-element, and whether its Jacobian keeps one sign"""
    d, o, nv, nn, nf, sp, _ = TYPES[sub]
    s = param(T, d, sp)
    if sub == "Pyramid5":
        # two tets are enough for a planar base
        def tet(a, b, c, dd):
            u, v, w = ([pts[x][k] - pts[a][k] for k in range(3)] for x in (b, c, dd))
            cr = cross(u, v)
            return sum(cr[k] * w[k] for k in range(3)) / 6
        v1, v2, v3, v4 = tet(0, 1, 2, 4), tet(0, 2, 3, 4), tet(0, 1, 3, 4), tet(1, 2, 3, 4)
        return v1 + v2, min(v1, v2, v3, v4) > 0 and v1 + v2 == v3 + v4
    M = T.N(sub, s)
    x = [T.I.sum([M[j] * T.A.const(pts[j][k]) for j in range(nn)]) for k in range(3)]
    g = [[v.diff(p) for v in x] for p in s[:d]]
    if d == 1:
        det = g[0][0]
    elif d == 2:
        det = g[0][0] * g[1][1] - g[0][1] * g[1][0]
    else:
        c = cross(g[0], g[1])
        det = T.I.sum([c[k] * g[2][k] for k in range(3)])
    v = integrate(det, T, sp)
    # sub-elements are affine images: constant determinant
    return v, det.isconst() and v > 0


def bisect(R, T, e):
    d, o, nv, nn, nf, sp, _ = TYPES[e]
    n = T.num("Elem::GetO2ElemBisectNum", T.E[e])
    f = T.fn("Elem::Element::ExtractO2BisectElemNodes")
    if o != 2:
        if n != 0:
            R.viol("bis|o1|" + e, T.where(f), "%s declares %d sub-elements" % (e, n))
        return
    X = T.std(e)
    base = {a: b for b, a in PAIR.items()}[e]
    parent = []
    if d >= 2:
        for i in range(nf):
            ft = T.name(T.num("Elem::GetFaceType", T.E[e], i))
            parent.append(T.extract("Elem::Element::ExtractFaceNodes", e, [i], nn, TYPES[ft][3]))
    else:
        parent = [[0], [1]]
    diag = {}
    for v in range(VARIANTS.get(e, 1)):
        tot = F(0)
        fcs = {}
        eds = {}
        for k in range(n):
            st = T.name(T.num("Elem::GetO2ElemBisectElem", T.E[e], k))
            R.count("sub_elements")
            if st not in TYPES or TYPES[st][0] != d or TYPES[st][1] != 1:
                R.viol("bis|type|%s|%d" % (e, k), T.where(f), "sub-element %d of %s has type %s" % (k, e, st))
                continue
            ns = TYPES[st][3]
            nodes = T.extract("Elem::Element::ExtractO2BisectElemNodes", e, [k, v], nn, ns)
            if any(not 0 <= a < nn for a in nodes) or len(set(nodes)) != ns:
                R.viol("bis|nodes|%s|%d|%d" % (e, v, k), T.where(f), "sub-element %d (variant %d) of %s: nodes %s" % (k, v, e, nodes))
                continue
            vol, ok = subvol(T, st, [X[a] for a in nodes])
            tot += vol
            if not ok:
                R.viol("bis|vol|%s|%d|%d" % (e, v, k), T.where(f), "sub-element %d (variant %d) of %s (%s, nodes %s) is inverted or distorted" %
                       (k, v, e, st, nodes))
            if d == 1:
                for a in nodes:
                    fcs.setdefault(frozenset([a]), []).append((k, (a,)))
            else:
                for i in range(TYPES[st][4]):
                    ft = T.name(T.num("Elem::GetFaceType", T.E[st], i))
                    fn = T.extract("Elem::Element::ExtractFaceNodes", st, [i], ns, TYPES[ft][3])
                    g = tuple(nodes[a] for a in fn)
                    fcs.setdefault(frozenset(g), []).append((k, g))
                    for a in range(len(g)):
                        eds.setdefault(frozenset((g[a], g[(a + 1) % len(g)])), set()).add(k)
        want = monomial_integral(sp, 0, 0, 0)
        if tot != want:
            R.viol("bis|tile|%s|%d" % (e, v), T.where(f), "the sub-elements (variant %d) of %s have total volume %s, the element %s" % (v, e, tot, want))
        for s, us in fcs.items():
            on = [p for p in parent if s <= set(p)]
            if len(us) > 2 or len(us) == 1 and not on or len(us) == 2 and on:
                R.viol("bis|match|%s|%d" % (e, v), T.where(f), "sub-elements (variant %d) of %s do not match face to face at nodes %s" % (v, e, sorted(s)))
        if e in VARIANTS:
            # the diagonal of the variant: an interior edge between two edge midpoints opposite each other
            cen = [sorted(q) for q, ks in eds.items() if min(q) >= nv and all(X[a] != (0, 0, 0) for a in q) and
                   not any(q <= set(p) for p in parent)]
            cen = [q for q in cen if tuple((X[q[0]][i] + X[q[1]][i]) / 2 for i in range(3)) == inner(e)]
            diag[v] = cen
    if e in VARIANTS:
        variant(R, T, e, diag)


def inner(e):
    return (F(1, 4), F(1, 4), F(1, 4)) if e == "Tet10" else (F(0), F(0), F(1, 2))


def variant(R, T, e, diag):
    fv = T.fn("Elem::GetO2ElemBisectVariant")
    nn = TYPES[e][3]
    for v, ds in diag.items():
        R.count("variants")
        if len(ds) != 1:
            R.viol("variant|diag|%s|%d" % (e, v), T.where(fv), "variant %d of %s: diagonals %s" % (v, e, ds))
            continue
        a, b = ds[0]
        # an element whose diagonal a-b is the shortest one
        I = T.I
        pos = {}
        alld = [x[0] for x in diag.values() if len(x) == 1]
        for k in range(nn):
            pos[k] = (0, 0, 0)
        for j, (p, q) in enumerate(alld):
            L = 1 if (p, q) == (a, b) else 3 + j
            pos[p], pos[q] = (-L, 0, 0), (L, 0, 0)
        m = Mat(3, nn, [T.A.const(pos[k][i]) for i in range(3) for k in range(nn)])
        got = I.int(I.call(fv, [T.elem(e), I.store(m)]))
        if got != v:
            R.viol("variant|%s|%d" % (e, v), T.where(fv), "GetO2ElemBisectVariant(%s) answers %d when diagonal %d-%d, which variant %d uses, is the shortest"
                   % (e, got, a, b, v))


def vtk(R, T, e):
    d, o, nv, nn, nf, sp, _ = TYPES[e]
    f = T.fn("Elem::ToVTKVertsAndData")
    I = T.I
    r = I.rv(I.call(f, [T.elem(e), I.store(Seq_([T.A.const(k) for k in range(nn)]))]))
    a = list(r.f.values()) if isinstance(r, Rec) else r.e
    ty, nodes = I.int(a[0]), [I.int(x) for x in I.rv(a[1]).e]
    X = T.std(e)
    R.count("vtk_cells")
    if VTKSPACE.get(ty) != sp:
        R.viol("vtk|type|" + e, T.where(f), "%s is exported as VTK cell type %d" % (e, ty))
        return
    if len(set(nodes)) != len(nodes) or any(not 0 <= k < nn for k in nodes):
        R.viol("vtk|nodes|" + e, T.where(f), "%s is exported with nodes %s" % (e, nodes))
        return
    if ty == 4:
        xs = [X[k][0] for k in nodes]
        if xs != sorted(xs) or len(nodes) != nn:
            R.viol("vtk|line|" + e, T.where(f), "%s: the exported poly-line visits its nodes out of order: %s" % (e, nodes))
        return
    v, mids = VTK[ty]
    if len(nodes) != v + len(mids):
        R.viol("vtk|count|" + e, T.where(f), "%s: VTK cell type %d takes %d nodes, %d are exported" % (e, ty, v + len(mids), len(nodes)))
        return
    base = [a for a, b in PAIR.items() if e in (a, b)][0]
    pts = [X[k] for k in nodes[:v]]
    vol, ok = subvol(T, base, pts)
    if not ok or vol != monomial_integral(sp, 0, 0, 0):
        R.viol("vtk|verts|" + e, T.where(f), "%s: the exported vertices %s are not in cyclic order" % (e, nodes[:v]))
    for k, (p, q) in enumerate(mids):
        c = tuple((pts[p][i] + pts[q][i]) / 2 for i in range(3))
        if c != X[nodes[v + k]]:
            R.viol("vtk|mid|%s|%d" % (e, k), T.where(f), "%s: exported node %d (element node %d) is not the midpoint of VTK edge %d-%d" %
                   (e, v + k, nodes[v + k], p, q))


def cgns(R, T, e):
    num = TYPES[e][6]
    f1, f2 = T.fn("__getElemTypeFromCGNSType"), T.fn("__getCGNSTypeFromElemType")
    R.count("cgns_types", 2)
    a = T.I.int(T.I.call(f1, [T.A.const(num)]))
    if a != T.E[e]:
        R.viol("cgns|from|" + e, T.where(f1), "CGNS element type %d (%s) is read as %s" % (num, e, T.name(a)))
    b = T.I.int(T.I.call(f2, [T.A.const(T.E[e])]))
    if b != num:
        R.viol("cgns|to|" + e, T.where(f2), "%s is written as CGNS element type %d, not %d" % (e, b, num))
