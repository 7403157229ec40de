"""P06: numerical quadrature on every reference element is exact to its declared order."""
from prog import *
from refelem import *

TOL = F(1, 10 ** 12)


def run(R, tier):
    P = Program([VERIF + "/units/algebra_elem.cpp"])
    X = Ref(P)
    R.rule("Constant propagation through GetQuadratureScheme / GetQuadraturePoint gives, for every reference element and every "
           "order up to INT_ORDER_MAX, the complete list of points and weights as exact decimal fractions; their moments are "
           "compared with the closed-form integral of every monomial of total degree up to the order (tolerance 1e-12, the "
           "precision of the tabulated constants), and every point has to lie in the reference element. The Quadrature class is "
           "evaluated over an opaque integrand: the accumulated value has to be exactly sum w_i f_i over the points of the "
           "declared scheme, each integrand call receiving point i and the shape-function row stored for (element, order, i).")
    R.assume("floating-point rounding of the evaluation itself is not modelled")
    sch, pt = X.fn("Elem::GetQuadratureScheme"), X.fn("Elem::GetQuadraturePoint")
    omax = None
    for q, g in P.globals.items():
        if q.endswith("::INT_ORDER_MAX"):
            I = Interp(P)
            i = strip(g["d"]["init"])
            omax = i.get("v")
    omax = int(omax) if omax is not None else 6
    R.count("max_order", omax)
    table = {}
    for sp, d in SPACES.items():
        if sp not in X.S:
            continue
        for o in range(omax + 1):
            try:
                I = Interp(P)
                A = I.A
                s = I.int(I.call(sch, [A.const(X.S[sp]), A.const(o)]))
                pts = []
                for g in range(s):
                    p, w = I.store(Mat(3, 1, [A.const(0)] * 3)), I.store(A.const(0))
                    I.call(pt, [A.const(X.S[sp]), A.const(s), A.const(g), p, w])
                    pts.append([v.constant() for v in I.mat(p).v] + [I.q(w).constant()])
            except SOFT as e:
                R.undecided("%s order %d" % (sp, o,), e, "undecided_schemes")
                continue
            table[sp, o] = (s, pts)
            R.count("schemes")
            R.count("points", len(pts))
            for g, (x, y, z, w) in enumerate(pts):
                if not inside(sp, x, y, z, TOL):
                    R.viol("%s|o%d|outside" % (sp, o), X.where(pt), "%s order %d (scheme %d): point %d = (%.6g, %.6g, %.6g) lies outside the "
                           "reference element" % (sp, o, s, g, x, y, z))
                if d < 3 and z != 0 or d < 2 and y != 0:
                    R.viol("%s|o%d|dim" % (sp, o), X.where(pt), "%s order %d: point %d has a component beyond dimension %d" % (sp, o, g, d))
            for a, b, c in product(range(o + 1), repeat=3):
                if a + b + c > o or d < 3 and c or d < 2 and b:
                    continue
                R.count("moments")
                m = sum(w * x ** a * y ** b * z ** c for x, y, z, w in pts)
                e = monomial_integral(sp, a, b, c)
                if abs(m - e) > TOL:
                    R.viol("%s|o%d|moment" % (sp, o), X.where(pt), "%s order %d (scheme %d): the integral of x^%d y^%d z^%d is %.15g, not %.15g"
                           % (sp, o, s, a, b, c, m, e))
    R.need("schemes", 30)
    volume(R, P, X)
    use(R, P, X, omax)
    patches(R, P, X, omax, table)


def volume(R, P, X):
    f = X.fn("Elem::ParamSpaceVol")
    for sp in SPACES:
        try:
            I = Interp(P)
            v = I.q(I.call(f, [I.A.const(X.S[sp])])).constant()
        except Undecided as e:
            R.count("undecided_volumes")
            continue
        R.count("volumes")
        e = monomial_integral(sp, 0, 0, 0)
        if abs(v - e) > TOL:
            R.viol("vol|" + sp, X.where(f), "ParamSpaceVol(%s) is %.15g, the reference element has volume %.15g" % (sp, v, e))


NPT = 5      # the scheme size is opaque to the class: any number does


def use(R, P, X, omax):
    """the Quadrature class over an opaque integrand, and the buffer of shape functions at the points"""
    probe = X.fn("Elem::probeQuadrature")
    inte = X.fn("Elem::Quadrature::Integration", "ProbeFull>")
    bufq = [q for q in P.globals if q.endswith("::__NBufferAtQuadrature")]
    ctor = P.by_q.get("DNDS::Geom::Elem::__TNBufferAtQuadrature::__TNBufferAtQuadrature", [])
    pspace = X.fn("Elem::ElemType_to_ParamSpace")

    def common(I, schemes):
        A = I.A

        def point(I, fr, n, args):
            ps, s, g = (I.int(x) for x in args[:3])
            I.assign(args[3], Mat(3, 1, [A.var("p%d_%d_%d_%d" % (ps, s, g, k)) for k in range(3)]))
            I.assign(args[4], A.var("w%d_%d_%d" % (ps, s, g)))

        def scheme(I, fr, n, args):
            ps, oo = I.int(args[0]), I.int(args[1])
            schemes.append((ps, oo))
            return A.const(NPT + oo)
        I.hooks["DNDS::Geom::Elem::GetQuadraturePoint"] = point
        I.hooks["DNDS::Geom::Elem::GetQuadratureScheme"] = scheme

    nel = max(X.E.values())
    for e in X.elems:
        try:
            I = Interp(P)
            ps = I.int(I.call(pspace, [I.A.const(X.E[e])]))
        except Undecided:
            continue
        for o in range(omax + 1):
            I = Interp(P)
            A = I.A
            log = {"Integration": [], "IntegrationSimple(f, iG)": [], "IntegrationSimple(f, iG, w)": []}
            schemes = []
            common(I, schemes)

            def mk(kind):
                def h(I, fr, n, args):
                    g = I.int(args[2])
                    I.assign(args[1], A.var("f%d" % g))
                    log[kind].append((g, args))
                return h
            I.hooks["DNDS::Geom::Elem::GetQuadPatches"] = lambda I, fr, n, args: Seq_([])
            for k, nm in zip(log, ("ProbeFull", "ProbeIG", "ProbeIGW")):
                I.hooks["DNDS::Geom::Elem::%s::operator()" % nm] = mk(k)
            n = NPT + o
            for q in bufq:
                I.gcache[q] = I.store(Rec("buf", {"buf": Seq_([Seq_([Seq_([A.var("D%d_%d_%d" % (et, oo, g)) for g in range(n)])
                                                                     for oo in range(omax + 1)]) for et in range(nel + 1)])}))
            acc = [I.store(A.var("acc%d" % k)) for k in range(3)]
            try:
                I.call(probe, [A.const(X.E[e]), A.const(o)] + acc)
                vals = [I.q(a) for a in acc]
                if not all(isinstance(v, Q) for v in vals):
                    raise Undecided("accumulator %s" % (vals,))
            except SOFT as ex:
                R.undecided("%s order %d" % (e, o,), ex, "undecided_integrations")
                continue
            R.count("integrations", 3)
            if (ps, o) not in schemes:
                R.viol("use|scheme", X.where(probe), "Quadrature{%s, %d} does not select the scheme of its own reference element and order "
                       "(asked for %s)" % (e, o, schemes))
            for k, nm in enumerate(log):
                want = A.var("acc%d" % k)
                for g in range(n):
                    want = want + A.var("w%d_%d_%d" % (ps, n, g)) * A.var("f%d" % g)
                if not (vals[k] - want).iszero():
                    R.viol("use|sum|" + nm, X.where(inte), "Quadrature::%s does not accumulate sum w_i f_i (element %s, order %d): got %s"
                           % (nm, e, o, str(vals[k])[:160]))
            for g, args in log["Integration"]:
                d = I.q(args[4])
                pv = I.mat(args[3])
                if not (isinstance(d, Q) and (d - A.var("D%d_%d_%d" % (X.E[e], o, g))).iszero()):
                    R.viol("use|buf", X.where(inte), "Quadrature::Integration hands the integrand the shape functions of another element, order or "
                           "point than (%s, %d, %d)" % (e, o, g))
                if not all((x - A.var("p%d_%d_%d_%d" % (ps, n, g, kk))).iszero() for kk, x in enumerate(pv.v)):
                    R.viol("use|point", X.where(inte), "Quadrature::Integration hands the integrand another point than point %d" % g)
            for g, args in log["IntegrationSimple(f, iG, w)"]:
                if not (I.q(args[3]) - A.var("w%d_%d_%d" % (ps, n, g))).iszero():
                    R.viol("use|weight", X.where(inte), "Quadrature::IntegrationSimple hands the integrand another weight than that of point %d" % g)
    R.need("integrations", 30)
    # the static buffer
    if ctor and bufq:
        I = Interp(P)
        A = I.A
        schemes, got = [], {}
        common(I, schemes)

        def d01(I, fr, n, args):
            el, pv, out = I.rv(args[0]), I.mat(args[1]), args[2]
            et = I.int(el.f["type"])
            got[id(I.rv(out))] = (et, [str(v) for v in pv.v], I.rv(out))
        I.hooks["DNDS::Geom::Elem::Element::GetD01Nj"] = d01
        g = P.globals[bufq[0]]
        try:
            th = I.default(g["_tu"].types[g["d"]["t"]])
            I.call(ctor[0], [], this=th)
            buf = I.rv(I.rv(th).f["buf"])
            for e in X.elems:
                ps = I.int(I.call(pspace, [A.const(X.E[e])]))
                for o in range(omax + 1):
                    row = I.rv(I.rv(I.rv(buf.e[X.E[e]]).e[o]))
                    if len(row.e) != NPT + o:
                        R.viol("buf|len", X.where(ctor[0]), "the shape-function buffer of %s order %d has %d entries, the scheme %d points" %
                               (e, o, len(row.e), NPT + o))
                        continue
                    for k in range(NPT + o):
                        R.count("buffer_entries")
                        w = got.get(id(I.rv(row.e[k])))
                        if w is None or w[0] != X.E[e] or w[1] != ["p%d_%d_%d_%d" % (ps, NPT + o, k, c) for c in range(3)]:
                            R.viol("buf|entry", X.where(ctor[0]), "the shape-function buffer of %s, order %d, point %d holds %s" % (e, o, k, w and w[:2]))
        except SOFT as ex:
            R.undecided("shape-function buffer", ex, "undecided_buffer")


CORNERS = {"LineSpace": [(-1, 0), (1, 0)], "TriSpace": [(0, 0), (1, 0), (0, 1)], "QuadSpace": [(-1, -1), (1, -1), (1, 1), (-1, 1)]}
# (space, order): elements whose faces are cut into patches; mid-edge nodes follow the corners
PATCHED = {"Line2": "LineSpace", "Line3": "LineSpace", "Tri3": "TriSpace", "Tri6": "TriSpace", "Quad4": "QuadSpace", "Quad9": "QuadSpace"}


def patches(R, P, X, omax, table):
    """GetQuadPatches cuts the face at its quadrature points: the pieces have to tile it once, with one orientation"""
    fs = [f for f in P.by_q.get("DNDS::Geom::Elem::probePatches", []) if not f.dep]
    if not fs:
        raise AnalysisError("probePatches is not there")
    loc = X.where(X.fn("Elem::GetQuadPatches"))
    for e, sp in PATCHED.items():
        if e not in X.E:
            continue
        cor = [tuple(map(F, c)) for c in CORNERS[sp]]
        k = len(cor)
        o2 = e in ("Line3", "Tri6", "Quad9")
        node = dict((i + 1, c) for i, c in enumerate(cor))
        loop = []
        for i in range(k):
            a, b = i + 1, (i + 1) % k + 1
            if o2 and sp != "LineSpace":
                m = k + 1 + i
                node[m] = tuple((x + y) / 2 for x, y in zip(node[a], node[b]))
                loop += [(a, m), (m, b)]
            else:
                loop += [(a, b)]
        for o in range(omax + 1):
            if (sp, o) not in table:
                continue
            npt, pts = table[sp, o]
            pos = dict(node)
            for g, (x, y, z, w) in enumerate(pts):
                pos[-1 - g] = (x, y)
            I = Interp(P)
            try:
                got = [tuple(t) for t in I.pylist(I.call(fs[0], [I.A.const(X.E[e]), I.A.const(o)]))]
            except SOFT as ex:
                R.undecided("patches of %s order %d" % (e, o), ex, "undecided_patches")
                continue
            R.count("patch_lists")
            R.count("patches", len(got))
            key = "patch|%s|%d" % (e, o)
            if sp == "LineSpace":
                segs = [(a, b) for a, b, c in got]
                bad = any(c != 0 for a, b, c in got) or any(p not in pos or p == 0 for s in segs for p in s)
                ok = not bad and segs and segs[0][0] == 1 and segs[-1][1] == 2 and all(s[1] == t[0] for s, t in zip(segs, segs[1:])) \
                    and all(pos[a][0] < pos[b][0] for a, b in segs)
                if not ok:
                    R.viol(key, loc, "the patches of %s with the order %d rule (%d points) do not run along the edge once: %s" % (e, o, npt, got))
                continue
            out = [t for t in got if any(p not in pos for p in t)]
            if out:
                R.viol(key, loc, "a patch of %s with the order %d rule (%d points) names a node or point that does not exist: %s" % (e, o, npt, out[0]))
                continue

            def area(t):
                (a, b), (c, d), (e_, f) = (pos[p] for p in t)
                return ((c - a) * (f - b) - (e_ - a) * (d - b)) / 2
            neg = [t for t in got if area(t) <= 0]
            if neg:
                R.viol(key, loc, "patch %s of %s with the order %d rule (%d points) is turned over or empty" % (neg[0], e, o, npt))
                continue
            edges = {}
            for t in got:
                for a, b in zip(t, t[1:] + t[:1]):
                    if (b, a) in edges:
                        edges[b, a] -= 1
                        if not edges[b, a]:
                            del edges[b, a]
                    else:
                        edges[a, b] = edges.get((a, b), 0) + 1
            if edges != dict((s, 1) for s in loop):
                R.viol(key, loc, "the patches of %s with the order %d rule (%d points) leave edges %s open: they do not tile the face once"
                       % (e, o, npt, sorted(set(edges) ^ set(loop))[:4]))
