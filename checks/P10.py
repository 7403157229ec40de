"""P10: the ideal-gas state algebra is the one of the Euler and Navier-Stokes equations."""
from prog import *
from gaslib import *


def run(R, tier):
    P = Program([VERIF + "/units/algebra_gas.cpp"])
    X = G(P)
    R.rule("Abstract interpretation over rational functions in formal variables (density, velocity, pressure, gamma, gradients, normal, grid velocity) "
           "of the state algebra in Euler/Gas.hpp, in 2 and 3 dimensions. Decided as exact identities: conservative/primitive conversions are inverse and are "
           "the ideal-gas ones; p, a^2 and H; stagnation values; left and right eigenvector matrices are inverse and diagonalise the flux Jacobian; "
           "inviscid flux is (U (v-vg) + p terms).n in every variant; increments are the derivatives of velocity, pressure and flux; gradient conversion is the "
           "chain rule; viscous flux is the Newtonian stress, its work and Fourier's heat flux.")
    R.assume("floating-point rounding is not modelled; verySmallReal is zero")
    for d in (2, 3):
        for part in (convert, thermal, stagnation, eigen, flux, increments, gradients, viscous, qcr):
            try:
                part(R, X, d)
            except SOFT as ex:
                R.undecided("%s (%dD)" % (part.__name__, d,), ex, "undecided")
    R.need("identities", 100)


def convert(R, X, d):
    I = Interp(X.P)
    A = I.A
    s = State(A, d)
    f, g = X.f("IdealGasThermalConservative2Primitive", r"<%d," % d), X.f("IdealGasThermalPrimitive2Conservative", r"<%d," % d)
    q = out(I, d + 2)
    I.call(f, [vec(I, s.U), q, I.store(s.gamma)])
    eqs(R, X, f, "c2p|%d" % d, I.mat(q).v, [s.rho] + s.v + [s.p], "conservative to primitive (%dD) does not give (rho, v, p)" % d)
    q = out(I, d + 2)
    I.call(g, [vec(I, [s.rho] + s.v + [s.p]), q, I.store(s.gamma)])
    eqs(R, X, g, "p2c|%d" % d, I.mat(q).v, s.U, "primitive to conservative (%dD) does not give (rho, rho v, p/(gamma-1) + rho v^2/2)" % d)
    # passive scalars: conserved rho*phi <-> phi
    U = s.U + [s.rho * A.var("phi0"), s.rho * A.var("phi1")]
    pr = [s.rho] + s.v + [s.p, A.var("phi0"), A.var("phi1")]
    q = out(I, d + 4)
    I.call(f, [vec(I, U), q, I.store(s.gamma)])
    eqs(R, X, f, "c2ps|%d" % d, I.mat(q).v, pr, "conservative to primitive (%dD) with further transported variables" % d)
    q = out(I, d + 4)
    I.call(g, [vec(I, pr), q, I.store(s.gamma)])
    eqs(R, X, g, "p2cs|%d" % d, I.mat(q).v, U, "primitive to conservative (%dD) with further transported variables" % d)


def thermal(R, X, d):
    I = Interp(X.P)
    A = I.A
    s = State(A, d)
    f = X.f("IdealGasThermal")
    o = [I.store(A.var("o%d" % i)) for i in range(3)]
    I.call(f, [I.store(s.E), I.store(s.rho), I.store(s.v2), I.store(s.gamma)] + o)
    eqs(R, X, f, "thermal|%d" % d, [I.q(x) for x in o], [s.p, s.a2, s.H], "IdealGasThermal does not give p, a^2, H")


def stagnation(R, X, d):
    I = Interp(X.P)
    A = I.A
    s = State(A, d)
    f = X.f("IdealGasThermalPrimitiveGetP0T0", r"<%d," % d)
    rg = A.var("rg", positive=True)
    r = I.rv(I.call(f, [vec(I, [s.rho] + s.v + [s.p]), I.store(s.gamma), I.store(rg)]))
    if not isinstance(r, Seq_) or len(r.e) != 2:
        raise Undecided("result")
    p0, T0 = I.q(r.e[0]), I.q(r.e[1])
    m = A.const(1) + s.g1 * A.const(F(1, 2)) * s.v2 / s.a2
    eqs(R, X, f, "stag|%d" % d, [p0, T0], [A.app("pow", [m, s.gamma / s.g1], positive=True) * s.p, m * s.p / (s.rho * rg)],
        "stagnation pressure and temperature (%dD) are not the isentropic ones" % d)


def matmul(A, a, b, n):
    r = []
    for i in range(n):
        for j in range(n):
            x = A.const(0)
            for k in range(n):
                x = x + a[i * n + k] * b[k * n + j]
            r.append(x)
    return r


def fjac(A, d, s, n):
    """Jacobian of F(U).n by the conservative variables, at U(s), fixed grid"""
    m = d + 2
    us = [A.var("U0", positive=True)] + [A.var("U%d" % i) for i in range(1, m)]
    v = [us[i + 1] / us[0] for i in range(d)]
    v2 = dot(v, v)
    p = s.g1 * (us[d + 1] - us[0] * v2 * A.const(F(1, 2)))
    vn = dot(v, n)
    Fx = [us[0] * vn] + [us[i + 1] * vn + p * n[i] for i in range(d)] + [(us[d + 1] + p) * vn]
    J = jac(Fx, us)
    mp = {next(iter(u.n))[0][0]: val for u, val in zip(us, s.U)}
    return [[x.subs(mp) for x in row] for row in J]


def eigen(R, X, d):
    I = Interp(X.P)
    A = I.A
    m = d + 2
    a = A.var("a", positive=True)
    s = State(A, d)
    H = a * a / s.g1 + s.v2 * A.const(F(1, 2))
    fr, fl = X.f("EulerGasRightEigenVector", r"<%d," % d), X.f("EulerGasLeftEigenVector", r"<%d," % d)

    def mk():
        return I.store(Mat(m, m, [A.var("j%d" % k) for k in range(m * m)]))
    Rv, Lv = mk(), mk()
    I.call(fr, [vec(I, s.v), I.store(s.v2), I.store(H), I.store(a), Rv])
    I.call(fl, [vec(I, s.v), I.store(s.v2), I.store(H), I.store(a), I.store(s.gamma), Lv])
    r, l = I.mat(Rv).v, I.mat(Lv).v
    for x in r + l:
        if not isinstance(x, Q):
            raise Undecided("eigenvector entry %s" % x)
    eqs(R, X, fl, "LR|%d" % d, matmul(A, l, r, m), [A.const(int(i == j)) for i in range(m) for j in range(m)],
        "left times right eigenvector matrix (%dD) is not the identity" % d)
    # A R = R Lambda with a^2 = gamma p / rho
    s2 = State(A, d)
    s2.p = a * a * s2.rho / s2.gamma
    s2.E = s2.p / s2.g1 + s2.rho * s2.v2 * A.const(F(1, 2))
    s2.U = [s2.rho] + [s2.rho * x for x in s2.v] + [s2.E]
    J = fjac(A, d, s2, [A.const(1)] + [A.const(0)] * (d - 1))
    lam = [s.v[0] - a] + [s.v[0]] * d + [s.v[0] + a]
    eqs(R, X, fr, "AR|%d" % d, matmul(A, [x for row in J for x in row], r, m), [r[i * m + j] * lam[j] for i in range(m) for j in range(m)],
        "right eigenvectors (%dD) do not diagonalise the flux Jacobian in the order u-a, u, u+a" % d)
    # the variants that start from a state
    gr, gl = X.f("IdealGas_EulerGasRightEigenVector", r"<%d," % d), X.f("IdealGas_EulerGasLeftEigenVector", r"<%d," % d)
    r2 = I.mat(I.call(gr, [vec(I, s2.U), I.store(s.gamma)])).v
    l2 = I.mat(I.call(gl, [vec(I, s2.U), I.store(s.gamma)])).v
    eqs(R, X, gr, "RU|%d" % d, r2, r, "IdealGas_EulerGasRightEigenVector<%d>(U) is not the eigenvector matrix at U" % d)
    eqs(R, X, gl, "LU|%d" % d, l2, l, "IdealGas_EulerGasLeftEigenVector<%d>(U) is not the eigenvector matrix at U" % d)


def flux(R, X, d):
    I = Interp(X.P)
    A = I.A
    s = State(A, d)
    n = [A.var("n%d" % i) for i in range(d)]
    vg = [A.var("vg%d" % i) for i in range(d)]
    f = X.f("GasInviscidFlux", r"GasInviscidFlux<%d," % d)
    q = out(I, d + 2)
    I.call(f, [vec(I, s.U), vec(I, s.v), vec(I, vg), I.store(s.p), q])
    e = [A.const(1)] + [A.const(0)] * (d - 1)
    eqs(R, X, f, "fx|%d" % d, I.mat(q).v, s.flux(e, vg), "GasInviscidFlux<%d> is not the x flux through a face moving with vg" % d)
    f = X.f("GasInviscidFlux_XY", r"GasInviscidFlux_XY<%d," % d)
    q = out(I, d + 2)
    I.call(f, [vec(I, s.U), vec(I, s.v), vec(I, vg), vec(I, n), I.store(s.p), q])
    eqs(R, X, f, "fn|%d" % d, I.mat(q).v, s.flux(n, vg), "GasInviscidFlux_XY<%d> is not the normal flux through a face moving with vg" % d)
    for nm, normal in (("GasInviscidFlux_Batch", False), ("GasInviscidFlux_XY_Batch", True)):
        fs = [x for x in X.P.by_q.get(GAS + nm, ()) if x.body and re.search(nm + r"<%d, Eigen" % d, x.key)]
        if not fs:
            R.sample("%s<%d> is not instantiated" % (nm, d), limit=30)
            continue
        f = fs[0]
        I = Interp(X.P)
        A = I.A
        st = [State(A, d, "_%d" % k) for k in range(2)]
        nn = [[A.var("n%d_%d" % (i, k)) for i in range(d)] for k in range(2)]
        vv = [[A.var("vg%d_%d" % (i, k)) for i in range(d)] for k in range(2)]

        def cols(c):
            return I.store(Mat(len(c[0]), 2, [c[k][i] for i in range(len(c[0])) for k in range(2)]))
        q = I.store(Mat(d + 2, 2, [A.var("jk%d" % i) for i in range(2 * d + 4)]))
        args = [cols([x.U for x in st]), cols([x.v for x in st]), cols(vv)] + ([cols(nn)] if normal else []) + [I.store(Mat(1, 2, [x.p for x in st])), q]
        I.call(f, args)
        w = [x.flux(nn[k] if normal else [A.const(1)] + [A.const(0)] * (d - 1), vv[k]) for k, x in enumerate(st)]
        eqs(R, X, f, "%s|%d" % (nm, d), I.mat(q).v, [w[k][i] for i in range(d + 2) for k in range(2)], "%s<%d> is not the flux of every state of the batch" % (nm, d))


def increments(R, X, d):
    I = Interp(X.P)
    A = I.A
    m = d + 2
    s = State(A, d)
    dU = [A.var("dU%d" % i) for i in range(m)]
    f = X.f("IdealGasUIncrement", r"<%d," % d)
    dv, dp = out(I, d), I.store(A.var("junkp"))
    I.call(f, [vec(I, s.U), vec(I, dU), vec(I, s.v), I.store(s.gamma), dv, dp])
    wv = [(dU[i + 1] - s.v[i] * dU[0]) / s.rho for i in range(d)]
    wp = s.g1 * (dU[m - 1] - dot(s.v, dU[1:d + 1]) + s.v2 * A.const(F(1, 2)) * dU[0])
    eqs(R, X, f, "uinc|%d" % d, list(I.mat(dv).v) + [I.q(dp)], wv + [wp], "IdealGasUIncrement<%d> is not the derivative of velocity and pressure" % d)
    g = X.f("GasInviscidFluxFacialIncrement", r"<%d," % d)
    n = [A.var("n%d" % i) for i in range(d)]
    vg = [A.var("vg%d" % i) for i in range(d)]
    q = out(I, m)
    I.call(g, [vec(I, s.U), vec(I, dU), vec(I, n), vec(I, s.v), vec(I, wv), vec(I, vg), I.store(wp), I.store(s.p), q])
    J = fjac(A, d, s, n)
    vgn = dot(vg, n)
    w = [dot(J[i], dU) - dU[i] * vgn for i in range(m)]
    eqs(R, X, g, "finc|%d" % d, I.mat(q).v, w, "GasInviscidFluxFacialIncrement<%d> is not the flux Jacobian times the increment" % d)


def gradients(R, X, d):
    I = Interp(X.P)
    A = I.A
    m = d + 2
    s = State(A, d)
    f = X.f("GradientCons2Prim_IdealGas", r"<%d," % d)
    for extra in (0, 2):
        k = m + extra
        Gm = [[A.var("g%d_%d" % (i, j)) for j in range(k)] for i in range(d)]
        U = s.U + [A.var("sc%d" % j) for j in range(extra)]
        q = I.store(Mat(d, k, [A.var("junk%d" % i) for i in range(d * k)]))
        I.call(f, [vec(I, U), I.store(Mat(d, k, [x for r in Gm for x in r])), q, I.store(s.gamma)])
        want = []
        for i in range(d):
            g = Gm[i]
            gv = [(g[j + 1] - s.v[j] * g[0]) / s.rho for j in range(d)]
            gp = s.g1 * (g[m - 1] - dot(s.v, g[1:d + 1]) + s.v2 * A.const(F(1, 2)) * g[0])
            want += [g[0]] + gv + [gp] + [(g[m + j] - U[m + j] / s.rho * g[0]) / s.rho for j in range(extra)]
        eqs(R, X, f, "c2pgrad|%d|%d" % (d, extra), I.mat(q).v, want, "GradientCons2Prim_IdealGas<%d> is not the chain rule" % d)
    Gm = [[A.var("g%d_%d" % (i, j)) for j in range(m)] for i in range(d)]
    h = X.f("GetGradVelo", r"<%d," % d)
    v = I.mat(I.call(h, [vec(I, s.U), I.store(Mat(d, m, [x for r in Gm for x in r]))]))
    eqs(R, X, h, "gradv|%d" % d, v.v, [(Gm[i][j + 1] - s.v[j] * Gm[i][0]) / s.rho for i in range(d) for j in range(d)],
        "GetGradVelo<%d> is not the gradient of the velocity" % d)


def viscous(R, X, d):
    f = X.f("ViscousFlux_IdealGas", r"<%d," % d)
    for adia in (False, True):
        I = Interp(X.P)
        A = I.A
        m = d + 2
        s = State(A, d)
        n = unit(A, d)
        Gm = [[A.var("g%d_%d" % (i, j)) for j in range(m)] for i in range(d)]
        mu, k, cp = A.var("mu", positive=True), A.var("k", positive=True), A.var("cp", positive=True)
        q = out(I, m)
        I.call(f, [vec(I, s.U), I.store(Mat(d, m, [x for r in Gm for x in r])), vec(I, n), adia, I.store(s.gamma), I.store(mu), I.store(A.var("mr")), False,
                   I.store(k), I.store(cp), q])
        dv = [[Gm[i][j + 1] for j in range(d)] for i in range(d)]
        div = sum((dv[i][i] for i in range(1, d)), dv[0][0])
        tau = [[mu * (dv[i][j] + dv[j][i]) - (A.const(F(2, 3)) * mu * div if i == j else A.const(0)) for j in range(d)] for i in range(d)]
        rgas = cp * s.g1 / s.gamma
        gT = [(s.rho * Gm[i][m - 1] - s.p * Gm[i][0]) / (s.rho * s.rho * rgas) for i in range(d)]
        tn = [dot(tau[i], n) for i in range(d)]
        heat = A.const(0) if adia else k * dot(gT, n)
        want = [A.const(0)] + tn + [dot(tn, s.v) + heat]
        got = I.mat(q).v
        # the coefficient -2/3 is a rounded constant in the source
        got = [near(A, a, b) for a, b in zip(got, want)]
        eqs(R, X, f, "visc|%d|%s" % (d, adia), got, want, "ViscousFlux_IdealGas<%d>%s is not Newtonian stress, its work and the heat flux" % (d, " (adiabatic)" if adia else ""))


def qcr(R, X, d):
    """quadratic constitutive relation: tau - c (O tau^T + tau O^T), O the normalised rotation tensor"""
    f = X.f("ViscousFlux_IdealGas", r"<%d," % d)
    I = Interp(X.P)
    A = I.A
    m = d + 2
    s = State(A, d)
    n = [A.var("n%d" % i) for i in range(d)]
    Gm = [[A.var("g%d_%d" % (i, j)) for j in range(m)] for i in range(d)]
    mu, mr = A.var("mu", positive=True), A.var("mr")
    q = out(I, m)
    I.call(f, [vec(I, s.U), I.store(Mat(d, m, [x for r in Gm for x in r])), vec(I, n), False, I.store(s.gamma), I.store(mu), I.store(mr), True,
               I.store(A.const(0)), I.store(A.const(1)), q])
    dv = [[Gm[i][j + 1] for j in range(d)] for i in range(d)]
    b = qsqrt(I.sum([x * x for r in dv for x in r]))
    div = sum((dv[i][i] for i in range(1, d)), dv[0][0])
    tau = [[mu * (dv[i][j] + dv[j][i]) - (A.const(F(2, 3)) * mu * div if i == j else A.const(0)) for j in range(d)] for i in range(d)]
    O = [[(dv[j][i] - dv[i][j]) / b for j in range(d)] for i in range(d)]
    c = A.const(F(3, 10)) * mr
    t2 = [[tau[i][j] - c * I.sum([O[i][k] * tau[j][k] + O[j][k] * tau[i][k] for k in range(d)]) for j in range(d)] for i in range(d)]
    tn = [dot(t2[i], n) for i in range(d)]
    want = [A.const(0)] + tn + [dot(tn, s.v)]
    got = [near(A, x, y) for x, y in zip(I.mat(q).v, want)]
    eqs(R, X, f, "qcr|%d" % d, got, want, "ViscousFlux_IdealGas<%d> with the quadratic constitutive relation is not tau - c (O tau + (O tau)^T)" % d)


def near(A, a, b):
    """b when a differs from it only by the rounding of literal constants"""
    if not isinstance(a, Q):
        return a
    x = a - b
    if x.n and x.maxcoef() < F(1, 10 ** 12):
        return b
    return a
