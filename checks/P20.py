"""P20: eddy viscosity, turbulent diffusion and turbulence sources are those of the models named."""
from prog import *
from fvmodel import *
from report import run_jobs
from evcommon import *
from fractions import Fraction as F
import bvcommon

RN = "DNDS::Euler::RANS::"
D = 3


class T:
    """one formal point: state, gradients of the primitive and of the conservative variables; a regime scales the inputs so that each limiter is active somewhere"""

    def __init__(s, P, nt, sc, sign=1):
        s.P, s.nt, s.nv = P, nt, D + 2 + nt
        s.I = I = Interp(P)
        s.A = A = I.A
        c = A.const
        s.rho = A.var("rho", positive=True)
        s.v = [A.var("v%d" % i) for i in range(D)]
        s.t = [A.var("t%d" % i, positive=True) * c(sc.get("t%d" % i, 1)) * c(sign) for i in range(nt)]
        s.mu = A.var("mu", positive=True) * c(sc.get("mu", 1))
        s.muRef = A.var("muRef", positive=True)
        s.d = A.var("d", positive=True) * c(sc.get("d", 1))
        s.gr = [A.var("gr%d" % i) for i in range(D)]
        s.gu = [[A.var("gu%d%d" % (i, j)) * c(sc.get("gu", 1)) for j in range(D)] for i in range(D)]       # d_i u_j
        s.gt = [[A.var("gt%d%d" % (i, j)) * c(sc.get("gt", 1)) for j in range(nt)] for i in range(D)]
        s.ge = [A.var("ge%d" % i) for i in range(D)]
        s.n = [A.var("n%d" % i) for i in range(D)]
        s.U = [s.rho] + [s.rho * x for x in s.v] + [A.var("E", positive=True)] + [s.rho * x for x in s.t]
        # conservative gradient: d_i (rho q) = rho d_i q + q d_i rho
        s.G = []
        s.Gp = []
        for i in range(D):
            s.G += [s.gr[i]] + [s.rho * s.gu[i][j] + s.gr[i] * s.v[j] for j in range(D)] + [s.ge[i]] + [s.rho * s.gt[i][j] + s.gr[i] * s.t[j] for j in range(nt)]
            s.Gp += [s.gr[i]] + s.gu[i] + [s.ge[i]] + s.gt[i]

    def fn(s, nm):
        l = [f for f in s.P.by_q.get(RN + nm, []) if not f.dep and f.body]
        if not l:
            raise AnalysisError("%s is not there any more" % nm)
        return l[0]

    def vec(s, x):
        return s.I.store(Mat(len(x), 1, list(x)))

    def grad(s, g):
        return s.I.store(Mat(D, s.nv, list(g)))

    # ---- invariants of the velocity gradient
    def shear2(s):
        """twice the deviatoric strain rate"""
        tr = s.trace() * F(2, 3)
        return [[s.gu[i][j] + s.gu[j][i] - (tr if i == j else s.A.const(0)) for j in range(D)] for i in range(D)]

    def strain2(s):
        return [[s.gu[i][j] + s.gu[j][i] for j in range(D)] for i in range(D)]

    def rot2(s):
        return [[s.gu[j][i] - s.gu[i][j] for j in range(D)] for i in range(D)]

    def trace(s):
        return s.gu[0][0] + s.gu[1][1] + s.gu[2][2]

    def con(s, a, b):
        r = s.A.const(0)
        for i in range(D):
            for j in range(D):
                r = r + a[i][j] * b[i][j]
        return r

    def vort(s):
        """|Omega|: sqrt(2 W:W) with W half the antisymmetric gradient"""
        w = s.rot2()
        return qsqrt(s.con(w, w) / 2)

    def prod(s, mut):
        """-rho u'u' : grad u by Boussinesq"""
        rk = s.rho * s.t[0] * F(2, 3)
        return s.con(s.shear2(), s.gu) * mut - rk * s.trace()

    def cross(s):
        return sum((s.gt[i][0] * s.gt[i][1] for i in range(D)), s.A.const(0))

    def app(s, nm, *a, **kw):
        return s.A.app(nm, list(a), **kw)

    def tanh(s, x):
        return s.app("tanh", x)

    def exp(s, x):
        return s.app("exp", x, positive=True)

    def pw(s, x, e):
        return s.app("pow", x, s.A.const(e), positive=x.sign() == 1)

    def c(s, x):
        return s.A.const(F(x) if not isinstance(x, str) else F(x))

    def dn(s, j):
        return sum((s.gt[i][j] * s.n[i] for i in range(D)), s.A.const(0))


def sel(I, c, a, b):
    return (a if c else b) if isinstance(c, bool) else I.phi(c, a, b)


mx = lambda a, b: qmax(a, b, "max")
mn = lambda a, b: qmax(a, b, "min")


# ------------------------------------------------------------------------------------------------ the models
def rke_fmu(s):
    k, e = s.t
    ret = s.rho * k * k / (s.mu * e)
    one = s.c(1)
    return ret, (one - s.exp(-(ret / 100))) / (one - s.exp(-qsqrt(ret))) * mx(one, qsqrt(2 / ret))


def rke_mut0(s):
    k, e = s.t
    ret, fmu = rke_fmu(s)
    m = s.c("0.09") * fmu * s.rho * k * k / e
    ss = s.shear2()
    return ret, mn(m, s.c("2/3") * s.rho * k / qsqrt(s.con(ss, ss) / 2))


def rke(s):
    k, e = s.t
    ret, mut = rke_mut0(s)
    pk = mn(s.prod(mut), s.c("1.065") * s.c("0.09") * s.rho * k * s.rho * k / mut)
    tt = k / e * mx(s.c(1), 1 / qsqrt(ret / 2))
    gk, ge = [s.gt[i][0] for i in range(D)], [s.gt[i][1] for i in range(D)]
    psi = mx(s.c(0), sum((a * (a / e - k / (e * e) * b) for a, b in zip(gk, ge)), s.c(0)))
    E = s.c("0.3") * s.rho * qsqrt(e * tt) * psi * mx(qsqrt(k), s.pw(s.mu * e / s.rho, F(1, 4)))
    return {"mut": mn(mut, s.c(100000) * s.mu),
            "flux": lambda mut: [s.dn(0) * (s.mu + mut), s.dn(1) * (s.mu + mut / F(13, 10))],
            "src0": [pk - s.rho * e, (s.c("1.44") * pk - s.c("1.92") * s.rho * e + E) / tt],
            "src1": [s.c(0), s.c("1.92") / tt]}


def sst(s):
    k, w = s.t
    bs = s.c("0.09")
    nu = s.mu / s.rho
    a1, so2 = s.c("0.31"), s.c("0.856")
    x1, x2 = qsqrt(k) / (bs * w * s.d), 500 * nu / (s.d * s.d * w)
    cd = mx(2 * s.rho * so2 / w * s.cross(), s.c("1e-10"))
    F1 = s.tanh(mn(mx(x1, x2), 4 * s.rho * so2 * k / (cd * s.d * s.d)) ** 4)
    F2 = s.tanh(mx(2 * x1, x2) ** 2)
    mut = mn(a1 * k / mx(s.vort() * F2, a1 * w) * s.rho, s.c(100000) * s.mu)
    bl = lambda a, b: s.c(a) * F1 + s.c(b) * (1 - F1)
    kap2 = s.c("0.41") ** 2
    g1 = s.c("0.075") / bs - s.c("0.5") * kap2 / qsqrt(bs)
    g2 = s.c("0.0828") / bs - so2 * kap2 / qsqrt(bs)
    gam = g1 * F1 + g2 * (1 - F1)
    beta = bl("0.075", "0.0828")
    sr = s.strain2()
    tr = 2 * s.trace()
    dev = [[sr[i][j] - (tr / 3 if i == j else s.c(0)) for j in range(D)] for i in range(D)]
    pk = mn(mx(s.prod(mut), s.c(0)), 20 * bs * s.rho * k * w)
    po = gam * s.rho * s.con(dev, sr) / 2
    return {"mut": mut, "flux": lambda m: [s.dn(0) * (s.mu + m * bl("0.85", "1")), s.dn(1) * (s.mu + m * bl("0.5", "0.856"))],
            "src0": [pk - bs * s.rho * k * w, po - beta * s.rho * w * w + 2 * (1 - F1) * s.rho * so2 / w * s.cross()],
            "src1": [bs * w, 2 * beta * w]}


def kow(s):
    k, w = s.t
    bs = s.c("0.09")
    sr, o2 = s.strain2(), s.rot2()
    wt = mx(w, s.c("7/8") * qsqrt(s.con(sr, sr) / 2 / bs))
    mut = mn(k / wt * s.rho, s.c(100000) * s.mu)
    oo = [[sum((o2[i][l] * o2[l][j] for l in range(D)), s.c(0)) for j in range(D)] for i in range(D)]
    chi = qabs(s.con(oo, sr) / 8 / (bs * w) ** 3)
    beta = (1 + 85 * chi) / (1 + 100 * chi) * s.c("0.0708")
    cr = s.cross()
    sd = sel(s.I, s.I.cnd(">", cr, s.c(0)), s.c("1/8"), s.c(0))
    pk0 = s.prod(mut)
    pk = mn(mx(pk0, s.c(0)), bs * s.rho * k * w * 20)
    return {"mut": mut, "flux": lambda m: [s.dn(0) * (s.mu + m / 2), s.dn(1) * (s.mu + m / 2)],
            "src0": [pk - bs * s.rho * k * w, s.c("13/25") * w / k * pk0 - beta * s.rho * w * w + sd / w * cr],
            "src1": [bs * w, 2 * beta * w]}


MODELS = {"RealizableKe": rke, "SST": sst, "KOWilcox": kow}
REGIMES = [{}, {"mu": F(1, 10 ** 7)}, {"gu": 40}, {"gu": F(1, 50)}, {"d": F(1, 200)}, {"d": 30}, {"t0": F(1, 400)}, {"t1": F(1, 40)}, {"t1": 60}, {"gt": 20}, {"mu": 50}, {"gu": 3, "mu": F(1, 1000), "d": F(1, 10)},
           {"t0": F(1, 400), "gt": 20}, {"gu": 40, "t1": 60}, {"gu": 40, "t1": F(1, 40), "mu": F(1, 10 ** 6)}]


def two(R, P, nm, what, ri):
    s = T(P, 2, REGIMES[ri])
    I, A = s.I, s.A
    w = MODELS[nm](s)
    C = Cmp(R, s, "%s, regime %d" % (nm, ri), None)
    junk = [A.var("j%d" % k) for k in range(s.nv)]
    if what == "mut":
        f = s.fn("GetMut_" + nm)
        C.where = f.loc()
        got = I.q(I.call(f, [s.vec(s.U), s.grad(s.G), s.mu, s.d]))
        C("mut|" + nm, [got], [w["mut"]], "%s: the eddy viscosity is not the model's" % nm)
    elif what == "flux":
        f = s.fn("GetVisFlux_" + nm)
        C.where = f.loc()
        o = s.vec(junk)
        m = w["mut"]
        I.call(f, [s.vec(s.U), s.grad(s.Gp), s.vec(s.n), m, s.d, s.mu, o])
        C("tflux|" + nm, I.mat(o).v, junk[:D + 2] + w["flux"](m), "%s: the diffusive flux of the turbulence variables is not the model's" % nm)
    else:
        f = s.fn("GetSource_" + nm)
        C.where = f.loc()
        o = s.vec(junk)
        I.call(f, [s.vec(s.U), s.grad(s.G), s.mu, s.d, o, A.const(int(what[-1]))])
        C("%s|%s" % (what, nm), I.mat(o).v, junk[:D + 2] + w[what], "%s: the turbulence source%s is not the model's" % (nm, " (implicit part)" if what == "src1" else ""))
    R.count("closures")


SAREG = [{}, {"d": F(1, 40)}, {"d": 40}, {"mu": F(1, 60)}, {"mu": 30}, {"gu": 30}, {"gu": F(1, 40)}, {"mu": F(1, 20), "gu": F(1, 100), "d": F(1, 3)}, {"mu": 3, "gu": F(1, 100)}, {"t0": F(1, 50)}, {"t0": 20, "gu": F(1, 10)}]


def sa_fn(s, chi):
    return (16 + chi ** 3) / (16 - chi ** 3)


def sa(R, P, mode, rot, sign, ri):
    s = T(P, 1, SAREG[ri], sign)
    I, A = s.I, s.A
    mr = s.muRef
    nut = s.t[0] * mr                       # the transported variable is stored relative to the reference viscosity
    chi = s.rho * nut / s.mu
    cb1, cb2, kap = s.c("0.1355"), s.c("0.622"), s.c("0.41")
    sig = F(2, 3)
    cw1 = cb1 / (kap * kap) + (1 + cb2) / sig
    S = s.vort()
    sr = s.strain2()
    st = qsqrt(s.con(sr, sr))
    dd = s.d * s.d
    corr = mn(s.c(0), st - S)
    if sign > 0:
        fv1 = chi ** 3 / (chi ** 3 + s.c("7.1") ** 3)
        fv2 = 1 - chi / (1 + chi * fv1)
        sb = nut / (kap * kap * dd) * fv2
        c2, c3 = s.c("0.7"), s.c("0.9")
        sh = sel(I, I.cnd("<", sb, -(c2 * S)), S + S * (c2 * c2 * S + c3 * sb) / ((c3 - 2 * c2) * S - sb), S + sb)
        r = mn(nut / (sh * kap * kap * dd), s.c(10))
        g = r + s.c("0.3") * (r ** 6 - r)
        fw = g * s.pw((1 + s.c(64)) / (g ** 6 + 64), F(1, 6))
        ft2 = s.c("1.2") * s.exp(-(chi * chi / 2))
        Dn = (cw1 * fw - cb1 / (kap * kap) * ft2) * nut * nut / dd
        Pn = cb1 * (1 - ft2) * ((sh + corr) if rot else sh) * nut
        fn = s.c(1)
    else:
        Dn = -cw1 * nut * nut / dd
        Pn = cb1 * (1 - s.c("1.2")) * (qabs(S + corr) if rot else S) * nut
        fn = sa_fn(s, chi)
    gn = [s.gt[i][0] * mr for i in range(D)]
    dot = lambda a, b: sum((x * y for x, y in zip(a, b)), s.c(0))
    if mode == 0:
        w = (s.rho * (Pn - Dn + dot(gn, gn) * cb2 / sig) - (s.rho * nut * fn + s.mu) / (s.rho * sig) * dot(s.gr, gn)) / mr
    else:
        w = -mn(-(s.rho * Dn * 2) / mr / (s.rho * s.t[0]), s.c(0))
    f = s.fn("GetSource_SA")
    junk = [A.var("j%d" % k) for k in range(s.nv)]
    o = s.vec(junk)
    I.call(f, [s.vec(s.U), s.grad(s.G), mr, s.mu, A.var("gamma", positive=True), s.d, o, A.const(rot), A.const(mode)])
    C = Cmp(R, s, "SA, mode %d, %s viscosity variable, rotation correction %d, regime %d" % (mode, "positive" if sign > 0 else "negative", rot, ri), f.loc())
    C("sa%d" % mode, I.mat(o).v, junk[:D + 2] + [w], "Spalart-Allmaras: the source%s is not the model's" % (" (implicit part)" if mode else ""))
    R.count("closures")


# ------------------------------------------------------------------------------------------------ members of the evaluator
class Sim(bvcommon.Sim):
    def meth(S, I, fr, n, nm, args):
        return NotImplemented

    def find(S, nm):
        fn = [f for f in S.P.by_q.get(EV + "::" + nm, []) if not f.dep and f.body]
        if not fn:
            raise AnalysisError("EulerEvaluator::%s is not there any more" % nm)
        S.fn = fn[0]
        return fn[0]


def mueff(R, P, m, mod):
    S = Sim(P, m)
    I, A = S.I, S.A
    mg, tr, cs = A.var("muGas", positive=True), A.var("TRef", positive=True), A.var("CS", positive=True)
    S.f["settings"].v.update({"idealGasProperty.muModel": A.const(mod), "idealGasProperty.TRef": tr, "idealGasProperty.CSutherland": cs, "idealGasProperty.muGas": mg})
    t = A.var("T", positive=True)
    U = [A.var("U%d" % k, positive=k == 0) for k in range(S.nv)]
    got = I.q(I.call(S.find("muEff"), [I.store(Mat(S.nv, 1, U)), t], this=S))
    x = t / tr
    w = [mg, mg * x * qsqrt(x) * (tr + cs) / (t + cs), mg * U[0]][mod]
    Cmp(R, S, "%s, viscosity model %d" % (m, mod), S.fn.loc())("mueff", [got], [w], "the viscosity is not that of the configured law")
    R.count("closures")


def samut(R, P, m, sc, sign):
    S = Sim(P, m)
    I, A = S.I, S.A
    d = S.dim
    mr, mu = A.var("muRef", positive=True), A.var("mu", positive=True) * A.const(sc)
    U = [A.var("U%d" % k, positive=k in (0, d + 2)) for k in range(S.nv)]
    U[d + 2] = U[d + 2] * A.const(sign)
    G = [A.var("G%d" % k) for k in range(d * S.nv)]
    v = lambda x: I.store(Mat(len(x), 1, list(x)))
    g = I.store(Mat(d, S.nv, G))
    got = I.q(I.call(S.find("getMuTur"), [v(U), g, mr, mu, A.const(1)], this=S))
    chi0 = U[d + 2] * mr / mu
    soft = A.const(F(1, 20)) * A.app("log", [1 + A.app("exp", [20 * chi0], positive=True)])
    chi = sel(I, I.cnd("<", chi0, A.const(10)), soft, chi0)
    c3 = chi ** 3
    w = mu * qmax(chi * c3 / (c3 + A.const(F(71, 10)) ** 3), A.const(0), "max")
    Cmp(R, S, "%s, viscosity scale %s, sign %d" % (m, sc, sign), S.fn.loc())("samut", [got], [w], "Spalart-Allmaras: the eddy viscosity is not the model's")
    mt = A.var("mut", positive=True)
    n = [A.var("n%d" % k) for k in range(d)]
    j = [A.var("j%d" % k) for k in range(S.nv)]
    o = v(j)
    I.call(S.find("visFluxTurVariable"), [v(U), g, mr, mu, mt, v(n), A.const(1), o], this=S)
    fn = A.const(1) if sign > 0 else (16 + chi0 ** 3) / (16 - chi0 ** 3)
    w = j[:d + 2] + [sum((G[i * S.nv + d + 2] * n[i] for i in range(d)), A.const(0)) * (mu + U[d + 2] * mr * fn) / F(2, 3)]
    Cmp(R, S, "%s, viscosity scale %s, sign %d" % (m, sc, sign), S.fn.loc())("saflux", I.mat(o).v, w, "Spalart-Allmaras: the diffusive flux is not the model's")
    R.count("closures")


def pick(R, P, m, rans):
    """two-equation members hand over to the model configured, with the distance of the face"""
    S = Sim(P, m)
    I, A, d = S.I, S.A, S.dim
    nm = {"RANS_KOSST": "SST", "RANS_KOWilcox": "KOWilcox", "RANS_RKE": "RealizableKe"}[rans]
    S.f["settings"].v["ransModel"] = A.const(S.ransenum[rans])
    S.f["dWallFace"] = Arr("dWallFace", lambda I, f: A.var("dwf%d" % f, positive=True), 3)

    def hm(k):
        def h(I, fr, n, a):
            return A.app("@mut" + k, col(I, a[0]) + I.mat(a[1]).v + [I.q(a[2]), I.q(a[3])], True)
        return h

    def hf(k):
        def h(I, fr, n, a):
            o = list(I.mat(a[6]).v)
            for i in (d + 2, d + 3):
                o[i] = A.app("@tf%s%d" % (k, i), col(I, a[0]) + I.mat(a[1]).v + col(I, a[2]) + [I.q(a[3]), I.q(a[4]), I.q(a[5])])
            I.assign(a[6], Mat(S.nv, 1, o))
        return h
    for k in MODELS:
        I.hooks[RN + "GetMut_" + k] = hm(k)
        I.hooks[RN + "GetVisFlux_" + k] = hf(k)
    mr, mu, mt = (A.var(x, positive=True) for x in ("muRef", "mu", "mut"))
    U = [A.var("U%d" % k) for k in range(S.nv)]
    G = [A.var("G%d" % k) for k in range(d * S.nv)]
    n = [A.var("n%d" % k) for k in range(d)]
    j = [A.var("j%d" % k) for k in range(S.nv)]
    v = lambda x: I.store(Mat(len(x), 1, list(x)))
    g = I.store(Mat(d, S.nv, G))
    dw = A.var("dwf1", positive=True)
    got = I.q(I.call(S.find("getMuTur"), [v(U), g, mr, mu, A.const(1)], this=S))
    C = Cmp(R, S, "%s, %s" % (m, rans), S.fn.loc())
    C("pickmut", [got], [A.app("@mut" + nm, U + G + [mu, dw], True)], "the eddy viscosity is not that of the configured model at the face's wall distance")
    o = v(j)
    I.call(S.find("visFluxTurVariable"), [v(U), g, mr, mu, mt, v(n), A.const(1), o], this=S)
    C("pickflux", I.mat(o).v, j[:d + 2] + [A.app("@tf%s%d" % (nm, i), U + G + n + [mt, dw, mu]) for i in (d + 2, d + 3)],
      "the turbulent diffusion is not that of the configured model at the face's wall distance")
    R.count("closures")


def jobs(P, models):
    J = []
    for nm in MODELS:
        for what in ("mut", "flux", "src0", "src1"):
            for ri in range(len(REGIMES)):
                J.append((two, (P, nm, what, ri), "%s %s" % (nm, what)))
    for mode in (0, 1):
        for rot in (0, 1):
            for sign in (1, -1):
                for ri in range(len(SAREG)):
                    J.append((sa, (P, mode, rot, sign, ri), "SA source"))
    for m in models:
        E = eigen_types(Program(euler_tus([m], ["EulerEvaluator_EvaluateDt"])))
        for k in (0, 1, 2):
            J.append((mueff, (E, m, k), "%s muEff" % m))
        if "SA" in m:
            for sc in (F(1), F(1, 40), F(20)):
                for sg in (1, -1):
                    J.append((samut, (E, m, sc, sg), "%s getMuTur" % m))
        if "2EQ" in m:
            for ra in ("RANS_KOSST", "RANS_KOWilcox", "RANS_RKE"):
                J.append((pick, (E, m, ra), "%s getMuTur" % m))
    return J


def jobs_of(P, m):
    return jobs(Program([VERIF + "/units/algebra_rans.cpp"]), [m])


def run(R, tier):
    R.rule("the closure functions of RANS_ke.hpp and the evaluator's viscosity members are interpreted over the extracted syntax tree on formal states and gradients; the results are compared with the models' "
           "equations, in regimes that make each limiter and switch active")
    R.assume("verySmallReal regularisations are taken as zero; equality of terms that are not syntactically equal after normalisation is decided by their values at sampled valuations of the formal variables")
    models = ["NS_SA", "NS_2EQ"] if tier == "quick" else list(DIMS)
    run_jobs(R, jobs(Program([VERIF + "/units/algebra_rans.cpp"]), models))
    R.need("closures", 100)
