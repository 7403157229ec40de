"""P11: every Riemann solver is consistent and conservative, and its batched form computes the same flux."""
import time
from prog import *
from gaslib import *
from alg import differs2
from report import run_jobs


COST = {"batched": 5, "roeform": 4, "conservative": 3}
NRM = {2: [[F(3, 5), F(4, 5)], [F(-5, 13), F(12, 13)]], 3: [[F(2, 3), F(-2, 3), F(1, 3)], [F(-3, 7), F(6, 7), F(2, 7)]]}


def run(R, tier):
    P = Program([VERIF + "/units/algebra_gas.cpp"])
    X = G(P)
    R.rule("Abstract interpretation over rational functions (square roots, absolute values, maxima and joins of branches as interned terms) of every branch of "
           "the Riemann solver dispatchers, 2 and 3 dimensions, moving faces included. Decided: the solver of every member of RiemannSolverType is dispatched; "
           "F(U,U) = F(U).n; F(UL,UR,n) = -F(UR,UL,-n); the upwind term of every Roe variant is R |Lambda| L (UR-UL) at the Roe average for the eigenvalues it reports; "
           "RoeFluxIncFDiff is that operator; GetRoeAverage is the Roe average; the batched solvers give the single-state flux for every column.")
    R.assume("floating-point rounding is not modelled; verySmallReal is zero; terms that do not normalise to equal are called different only when some valuation of "
             "their variables separates them")
    E = P.enums.get("DNDS::Euler::Gas::RiemannSolverType")
    if not E:
        raise AnalysisError("RiemannSolverType is not there any more")
    types = [(n, v) for n, v in E["c"] if v != 0]
    disp = {d: X.f("InviscidFlux_IdealGas_Dispatcher", r"Dispatcher<%d," % d) for d in (2, 3)}
    batch = {d: X.f("InviscidFlux_IdealGas_Batch_Dispatcher", r"Dispatcher<%d," % d) for d in (2, 3)}
    jobs = []
    for d in (2, 3):
        jobs += [(roeavg, (X, d)), (incdiff, (X, d))]
        for n, v in types:
            jobs += [(consistent, (X, disp[d], d, n, v)), (conservative, (X, disp[d], d, n, v)), (roeform, (X, disp[d], d, n, v)), (batched, (X, disp[d], batch[d], d, n, v))]
    run_jobs(R, [(f, a, "%s %s" % (f.__name__, [x for x in a if isinstance(x, (int, str))])) for f, a in jobs],
             order=lambda i: (-COST.get(jobs[i][0].__name__, 0) - (10 if "HLL" in str(jobs[i][1][-2]) else 0), i))
    R.need("identities", 100)


def call(X, I, f, v, UL, UR, ULm, URm, vg, n, gamma, dl, d):
    A = I.A
    q = out(I, d + 2)
    lam = [I.store(A.var("lamjunk%d" % i)) for i in range(3)]
    I.call(f, [A.const(v), vec(I, UL), vec(I, UR), vec(I, ULm), vec(I, URm), vec(I, vg), vec(I, n), I.store(gamma), q, I.store(dl),
               I.store(Rec(GAS + "DumpNone", {})), *lam])
    return I.mat(q).v, [I.q(x) for x in lam]


def written(v):
    return all(isinstance(x, Q) and not any(x.A.name[a].startswith("junk") for a in x.atoms()) for x in v)


def consistent(R, X, f, d, nm, v):
    I = Interp(X.P)
    A = I.A
    s = State(A, d)
    n = unit(A, d)
    vg = [A.var("vg%d" % i) for i in range(d)]
    F_, lam = call(X, I, f, v, s.U, s.U, s.U, s.U, vg, n, s.gamma, A.var("dl", positive=True), d)
    if all(isinstance(x, Q) and any(A.name[a].startswith("junk") for a in x.atoms()) for x in F_):
        R.viol("dispatch|%s|%d" % (nm, d), X.where(f), "InviscidFlux_IdealGas_Dispatcher<%d> computes no flux for %s" % (d, nm))
        return
    eqs(R, X, f, "consistent|%s|%d" % (nm, d), F_, s.flux(n, vg), "%s (%dD): the flux between equal states is not the flux of that state" % (nm, d))


def pair(A, d, tags="LR", g1=None):
    """two states whose densities are squares"""
    out = []
    for t in tags:
        s = State(A, d, t, g1)
        r = A.var("r" + t, positive=True)
        s.rho = r * r
        s.r = r
        s.E = s.p / s.g1 + s.rho * s.v2 * A.const(F(1, 2))
        s.H = (s.E + s.p) / s.rho
        s.U = [s.rho] + [s.rho * x for x in s.v] + [s.E]
        s.a2 = s.gamma * s.p / s.rho
        out.append(s)
    return out


def small(A, d):
    """gamma - 1 and grid velocity: formal in two dimensions, numbers in three (the formulas do not branch on them)"""
    if d == 2:
        return A.var("g1", positive=True), [A.var("vg%d" % i) for i in range(d)]
    return A.const(F(2, 5)), [A.const(F(k + 1, 3 + k)) for k in range(d)]


def num_eqs(R, X, f, key, got, want, text):
    """equality of term vectors; large terms are compared by valuation only"""
    bad = []
    for i, (a, b) in enumerate(zip(got, want)):
        if not isinstance(a, Q) or not isinstance(b, Q):
            raise Undecided("%s [%d]: %s" % (f.q, i, a if not isinstance(a, Q) else b))
        R.count("identities")
        if len(a.n) + len(b.n) > 3000:
            dv, how = differs2(a, b), "equal_by_valuation"
        else:
            x = a - b
            if x.iszero():
                continue
            dv, how = differs(x), "equal_up_to_case_analysis"
        if dv is None:
            raise Undecided("%s [%d] not evaluable" % (f.q, i))
        if dv:
            bad.append(i)
        else:
            R.count(how)
    if bad:
        R.viol(key, X.where(f), text + " (components %s)" % ", ".join(map(str, bad)))


def conservative(R, X, f, d, nm, v):
    for k, nv in enumerate(NRM[d][:1]):
        I = Interp(X.P)
        A = I.A
        l, r = pair(A, d, g1=A.const(F(2, 5)) if "HLL" in nm else None)
        n = [A.const(x) for x in nv]
        m = [-x for x in n]
        vg = [A.const(F(k + 1, 3 + k)) for k in range(d)] if "HLL" in nm else [A.var("vg%d" % i) for i in range(d)]
        dl = A.var("dl", positive=True)
        F1, _ = call(X, I, f, v, l.U, r.U, l.U, r.U, vg, n, l.gamma, dl, d)
        F2, _ = call(X, I, f, v, r.U, l.U, r.U, l.U, vg, m, l.gamma, dl, d)
        if not written(F1) or not written(F2):
            raise Undecided("flux value")
        num_eqs(R, X, f, "conservative|%s|%d" % (nm, d), F1, [-x for x in F2],
                "%s (%dD): the flux is not the negative of the flux with sides and normal exchanged" % (nm, d))


def roe_inc(A, d, dU, n, vel, v2, a, H, g1, lam):
    """R diag(lam) L dU at velocity vel, sound speed a"""
    vn = dot(vel, n)
    dp = g1 * (dU[d + 1] - dot(vel, dU[1:d + 1]) + v2 * A.const(F(1, 2)) * dU[0])
    dm = dot(dU[1:d + 1], n) - vn * dU[0]
    a2 = a * a
    half = A.const(F(1, 2))
    al0 = half * (dp / a2 - dm / a)
    al4 = half * (dp / a2 + dm / a)
    al1 = dU[0] - dp / a2
    tan = [dU[i + 1] - vel[i] * dU[0] - n[i] * dm for i in range(d)]
    w0, w1, w4 = lam[0] * al0, lam[1] * al1, lam[2] * al4
    r = [w0 + w1 + w4]
    for i in range(d):
        r.append(w0 * (vel[i] - a * n[i]) + w4 * (vel[i] + a * n[i]) + w1 * vel[i] + lam[1] * tan[i])
    r.append(w0 * (H - vn * a) + w4 * (H + vn * a) + w1 * v2 * half + lam[1] * dot(tan, vel))
    return r


def incdiff(R, X, d):
    f = X.f("RoeFluxIncFDiff", r"RoeFluxIncFDiff<%d," % d)
    I = Interp(X.P)
    A = I.A
    n = unit(A, d)
    vel = [A.var("v%d" % i) for i in range(d)]
    v2 = dot(vel, vel)
    a = A.var("a", positive=True)
    g1 = A.var("g1", positive=True)
    H = a * a / g1 + v2 * A.const(F(1, 2))
    lam = [A.var("lam%d" % i) for i in range(3)]
    dU = [A.var("dU%d" % i) for i in range(d + 2)]
    base = [A.var("base%d" % i) for i in range(d + 2)]
    q = vec(I, base)
    I.call(f, [vec(I, dU), vec(I, n), vec(I, vel), I.store(v2), I.store(a), I.store(a * a), I.store(H), *[I.store(x) for x in lam], I.store(g1 + A.const(1)), q])
    w = roe_inc(A, d, dU, n, vel, v2, a, H, g1, lam)
    num_eqs(R, X, f, "incdiff|%d" % d, I.mat(q).v, [x + y for x, y in zip(base, w)], "RoeFluxIncFDiff<%d> does not add R diag(lambda) L dU" % d)


def avg(A, d, l, r):
    den = l.r + r.r
    vel = [(l.r * x + r.r * y) / den for x, y in zip(l.v, r.v)]
    H = (l.r * l.H + r.r * r.H) / den
    v2 = dot(vel, vel)
    return vel, v2, H, l.g1 * (H - v2 * A.const(F(1, 2)))


def roeavg(R, X, d):
    f = X.f("GetRoeAverage", r"GetRoeAverage<%d," % d)
    I = Interp(X.P)
    A = I.A
    l, r = pair(A, d)
    o = [out(I, d)] + [I.store(A.var("o%d" % i)) for i in range(4)]
    I.call(f, [vec(I, l.U), vec(I, r.U), I.store(l.gamma), *o])
    vel, v2, H, a2 = avg(A, d, l, r)
    got = list(I.mat(o[0]).v) + [I.q(o[1]), I.q(o[2]) * I.q(o[2]), I.q(o[3]), I.q(o[4])]
    num_eqs(R, X, f, "roeavg|%d" % d, got, vel + [v2, a2, a2, H], "GetRoeAverage<%d> is not the Roe average" % d)


def roeform(R, X, f, d, nm, v):
    """F = (FL + FR)/2 - 1/2 R diag(lam) L (UR - UL) for the eigenvalues the solver reports"""
    if not nm.startswith("Roe"):
        return
    I = Interp(X.P)
    A = I.A
    g1, vgf = small(A, d)
    l, r = pair(A, d, g1=g1)
    lm, rm = pair(A, d, "MN", g1)
    n = [A.const(x) for x in NRM[d][1]]
    vg = vgf
    F1, lam = call(X, I, f, v, l.U, r.U, lm.U, rm.U, vg, n, l.gamma, A.var("dl", positive=True), d)
    if not written(F1) or not written(lam):
        raise Undecided("flux value")
    vel, v2, H, a2 = avg(A, d, lm, rm)
    a = qsqrt(a2)
    fl, fr = l.flux(n, vg), r.flux(n, vg)
    w = roe_inc(A, d, [y - x for x, y in zip(l.U, r.U)], n, vel, v2, a, H, l.g1, lam)
    half = A.const(F(1, 2))
    num_eqs(R, X, f, "roeform|%s|%d" % (nm, d), F1, [half * (x + y - z) for x, y, z in zip(fl, fr, w)],
            "%s (%dD): the flux is not the mean flux minus half of R |Lambda| L (UR - UL) at the Roe average of the mean states" % (nm, d))


def batched(R, X, f, g, d, nm, v):
    I = Interp(X.P)
    A = I.A
    g1, vgf = small(A, d)
    st = [pair(A, d, t, g1) for t in (("La", "Ra"), ("Lb", "Rb"))]
    lm, rm = pair(A, d, "MN", g1)
    n = [[A.const(x) for x in NRM[d][1]]] * 2
    vg = [vgf] * 2
    dl = A.var("dl", positive=True)

    def cols(c):
        return I.store(Mat(len(c[0]), 2, [c[k][i] for i in range(len(c[0])) for k in range(2)]))
    q = I.store(Mat(d + 2, 2, [A.var("junk%d" % i) for i in range(2 * d + 4)]))
    lam = [I.store(A.var("junkl%d" % i)) for i in range(3)]
    I.call(g, [A.const(v), cols([s[0].U for s in st]), cols([s[1].U for s in st]), vec(I, lm.U), vec(I, rm.U), cols(vg), vec(I, vg[0]), cols(n), vec(I, n[0]),
               I.store(lm.gamma), q, I.store(dl), I.store(Rec(GAS + "DumpNone", {})), *lam])
    got = I.mat(q).v
    lam = [I.q(x) for x in lam]
    if all(isinstance(x, Q) and any(A.name[a].startswith("junk") for a in x.atoms()) for x in got):
        # HLL solvers have no batched form; the caller refuses them
        R.sample("no batched form: %s" % nm, limit=20)
        return
    if not written(got):
        raise Undecided("batched flux value")
    for k in range(2):
        F1, l1 = call(X, I, f, v, st[k][0].U, st[k][1].U, lm.U, rm.U, vg[k], n[k], lm.gamma, dl, d)
        num_eqs(R, X, g, "batchlam|%s|%d" % (nm, d), lam, l1, "%s (%dD): the batched solver reports other eigenvalues than the single-state one" % (nm, d))
        num_eqs(R, X, g, "batch|%s|%d" % (nm, d), [got[i * 2 + k] for i in range(d + 2)], F1, "%s (%dD): the batched solver gives another flux than the single-state one" % (nm, d))
