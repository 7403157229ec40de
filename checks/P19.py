"""P19: the flux through a face point and the source of a cell point are assembled from their parts as the equations say."""
from prog import *
from fvmodel import *
from report import run_jobs
from evcommon import *
from fractions import Fraction as F
import bvcommon

GAS = "DNDS::Euler::Gas::"
NB = 2


class Sim(bvcommon.Sim):
    def __init__(S, P, model, opts=None, bctype="BCFar", rot=False, rans=None):
        bvcommon.Sim.__init__(S, P, model, rot=rot)
        I, A = S.I, S.A
        S.rs = dict(P.enums[GAS + "RiemannSolverType"]["c"])
        S.bctype = S.bcenum[bctype]
        S.muGas, S.TRef = A.var("muGas", positive=True), A.var("TRef", positive=True)
        S.opt = dict(opts or {})
        sv = S.f["settings"].v
        sv.update({"idealGasProperty.prGas": A.var("Pr", positive=True), "idealGasProperty.TRef": S.TRef, "idealGasProperty.CSutherland": A.var("CS", positive=True),
                   "rsTypeWall": A.const(S.rs["UnknownRS"]), "rsTypeAux": A.const(S.rs["UnknownRS"])})
        sv.update({k: A.const(v) for k, v in S.opt.items()})
        if rans:
            sv["ransModel"] = A.const(S.ransenum[rans])
        S.M.vfv.over["GetCellMaxLenScale"] = lambda I, fr, n, args: S.maxlen(I.int(I.ev(fr, args[0])))
        S.f["deltaLambdaFace"] = Arr("deltaLambdaFace", lambda I, f: A.var("dLambda%d" % f, positive=True), 3)
        S.f["dWallFace"] = Arr("dWallFace", lambda I, f: A.var("dwf%d" % f, positive=True), 3)
        I.hooks.update({GAS + "InviscidFlux_IdealGas_Dispatcher": S.h_rs, GAS + "InviscidFlux_IdealGas_Batch_Dispatcher": S.h_batch, GAS + "ViscousFlux_IdealGas": S.h_vis,
                        "DNDS::Euler::RANS::GetSource_SA": S.h_sa, "DNDS::Euler::RANS::GetSource_SST": S.h_2eq("SST"), "DNDS::Euler::RANS::GetSource_KOWilcox": S.h_2eq("KOW"),
                        "DNDS::Euler::RANS::GetSource_RealizableKe": S.h_2eq("RKE")})

    # ------------------------------------------------------- the parts, opaque functions of their arguments
    def dimck(S, I, fr, n):
        d = tmpl_ints(I.P.info(fr.fn, n))
        if d and d[0] != S.dim:
            raise I.broken("a function of %d dimensions on a state of %d" % (d[0], S.dim))

    def rsF(S, ty, UL, UR, ULm, URm, vg, n, gamma, dl, k):
        return S.A.app("@rs%s" % k, [S.A.const(ty)] + list(UL) + list(UR) + list(ULm) + list(URm) + list(vg) + list(n) + [gamma, dl])

    def baF(S, ty, UL, UR, ULm, URm, vg, vgC, n, nC, gamma, dl, k):
        return S.A.app("@ba%s" % k, [S.A.const(ty)] + list(UL) + list(UR) + list(ULm) + list(URm) + list(vg) + list(vgC) + list(n) + list(nC) + [gamma, dl])

    def h_rs(S, I, fr, n, a):
        S.dimck(I, fr, n)
        ar = [I.int(a[0])] + [S.ck(col(I, x)) for x in a[1:7]] + [I.q(a[7]), I.q(a[9])]
        S.nrs += 1
        I.assign(a[8], Mat(S.nv, 1, [S.rsF(*ar, k) if k < S.dim + 2 else Top("unset") for k in range(S.nv)]))
        for x, k in ((11, "l0"), (12, "l1"), (13, "l4")):
            I.assign(a[x], S.rsF(*ar, k))
        return None

    def ck(S, v):
        for x in v:
            if not isinstance(x, Q):
                raise Undecided("flux argument: %s" % (x,))
        return v

    def cols(S, I, a):
        m = I.mat(a)
        S.ck(m.v)
        return [[m.v[i * m.c + j] for i in range(m.r)] for j in range(m.c)]

    def h_batch(S, I, fr, n, a):
        S.dimck(I, fr, n)
        S.nrs += 1
        ty = I.int(a[0])
        UL, UR, vg, nn = (S.cols(I, a[k]) for k in (1, 2, 5, 7))
        ULm, URm, vgC, nC = (S.ck(col(I, a[k])) for k in (3, 4, 6, 8))
        ga, dl = I.q(a[9]), I.q(a[11])
        f = [[S.baF(ty, UL[g], UR[g], ULm, URm, vg[g], vgC, nn[g], nC, ga, dl, k) if k < S.dim + 2 else Top("unset") for k in range(S.nv)] for g in range(len(UL))]
        I.assign(a[10], Mat(S.nv, len(UL), [f[g][k] for k in range(S.nv) for g in range(len(UL))]))
        for x, k in ((13, "l0"), (14, "l1"), (15, "l4")):
            I.assign(a[x], S.baL(ty, ULm, URm, vgC, nC, ga, dl, k))
        return None

    def baL(S, ty, ULm, URm, vgC, nC, gamma, dl, k):
        return S.A.app("@ba" + k, [S.A.const(ty)] + list(ULm) + list(URm) + list(vgC) + list(nC) + [gamma, dl])

    def visF(S, U, G, n, wall, gamma, mu, rt, qcr, k, cp, i):
        return S.A.app("@vis%d" % i, list(U) + list(G) + list(n) + [S.A.const(int(wall)), gamma, mu, rt, S.A.const(int(qcr)), k, cp])

    def h_vis(S, I, fr, n, a):
        S.dimck(I, fr, n)
        ar = (S.ck(col(I, a[0])), S.ck(I.mat(a[1]).v), S.ck(col(I, a[2])), bool(I.truth(a[3])), I.q(a[4]), I.q(a[5]), I.q(a[6]), bool(I.truth(a[7])), I.q(a[8]), I.q(a[9]))
        old = I.mat(a[10]).v
        I.assign(a[10], Mat(S.nv, 1, [S.visF(*ar, i) if i < S.dim + 2 else old[i] for i in range(S.nv)]))
        return None

    def mut(S, U, G, muRef, mu, f):
        return S.A.app("@mut%d" % f, list(U) + list(G) + [muRef, mu], True)

    def tflux(S, U, G, muRef, mu, mut, n, f, i):
        return S.A.app("@tv%d_%d" % (f, i), list(U) + list(G) + [muRef, mu, mut] + list(n))

    def h_sa(S, I, fr, n, a):
        S.dimck(I, fr, n)
        ar = S.ck(col(I, a[0])) + S.ck(I.mat(a[1]).v) + [I.q(a[2]), I.q(a[3]), I.q(a[4]), I.q(a[5]), S.A.const(int(I.int(a[7])))]
        S.put(I, a[6], "@sa%d" % I.int(a[8]), ar, [S.dim + 2])
        return None

    def h_2eq(S, nm):
        def h(I, fr, n, a):
            S.dimck(I, fr, n)
            ar = S.ck(col(I, a[0])) + S.ck(I.mat(a[1]).v) + [I.q(a[2]), I.q(a[3])]
            S.put(I, a[4], "@%s%d" % (nm, I.int(a[5])), ar, [S.dim + 2, S.dim + 3])
        return h

    def put(S, I, lv, nm, ar, at):
        old = list(I.mat(lv).v)
        for k in at:
            old[k] = S.A.app("%s_%d" % (nm, k), ar)
        I.assign(lv, Mat(S.nv, 1, old))

    def meth(S, I, fr, n, nm, args):
        if nm == "getMuTur":
            a = [I.ev(fr, x) for x in args]
            if "SA" not in S.model and "2EQ" not in S.model:
                return S.A.const(0)
            return S.mut(S.ck(col(I, a[0])), S.ck(I.mat(a[1]).v), I.q(a[2]), I.q(a[3]), I.int(a[4]))
        if nm == "visFluxTurVariable":
            a = [I.ev(fr, x) for x in args]
            old = list(I.mat(a[7]).v)
            ar = (S.ck(col(I, a[0])), S.ck(I.mat(a[1]).v), I.q(a[2]), I.q(a[3]), I.q(a[4]), S.ck(col(I, a[5])), I.int(a[6]))
            for i in range(S.dim + 2, S.nv):
                old[i] = S.tflux(*ar, i)
            I.assign(a[7], Mat(S.nv, 1, old))
            return None
        return bvcommon.Sim.meth(S, I, fr, n, nm, args)

    def maxlen(S, c):
        return S.A.var("maxlen%d" % c, positive=True)

    def find(S, nm):
        fn = [f for f in S.P.by_q.get(EV + "::" + nm, []) if not f.dep and f.body]
        if not fn:
            raise AnalysisError("EulerEvaluator::%s is not there any more" % nm)
        return fn[0]

    def T(S, U):
        d = S.dim
        p = S.g1 * (U[d + 1] - sum((x * x for x in U[1:d + 1]), S.A.const(0)) / (2 * U[0]))
        return p / ((S.gamma - 1) / S.gamma * S.Cp * U[0])

    def unitv(S, k, pos=True):
        """unit vectors with rational components: concrete directions, different for each k"""
        T3 = [((3, 5), (4, 5)), ((5, 13), (12, 13)), ((8, 17), (15, 17)), ((7, 25), (24, 25))]
        a = [F(*x) for x in T3[k % 4]]
        if S.dim == 3:
            b = [F(*x) for x in T3[(k + 1) % 4]]
            a = [a[0], a[1] * b[0], a[1] * b[1]]
        return [S.A.const(x) for x in a]


def flux(R, P, m, kind, bctype, opts, ign, rsn):
    """kind: normal, or the orientation of the velocity jump for the rotated scheme"""
    o = dict(opts)
    if kind != "normal":
        o["rsRotateScheme"] = 1
    S = Sim(P, m, o, bctype)
    I, A, d, nv = S.I, S.A, S.dim, S.nv
    S.nrs = 0
    M = S.M
    fn = S.fn = S.find("fluxFace")
    f = 1
    st = lambda t: [A.var("%s_%d" % (t, k), positive=k == 0) for k in range(nv)]
    UL, UR = [st("UL%d" % g) for g in range(NB)], [st("UR%d" % g) for g in range(NB)]
    G = [[A.var("G%d_%d" % (g, k)) for k in range(d * nv)] for g in range(NB)]
    GP = [[A.var("H%d_%d" % (g, k)) for k in range(d * nv)] for g in range(NB)]
    vg = [M.vec("vg%d" % g, d) for g in range(NB)]
    vgC = M.vec("vgC", d)
    ULm, URm = st("ULm"), st("URm")
    if kind == "normal":
        n = [M.vec("n%d" % g, d) for g in range(NB)]
        nC = M.vec("nC", d)
    else:
        n = [S.unitv(0), S.unitv(1)]
        nC = S.unitv(2)
        u = S.unitv(3)
        sp = A.var("jump", positive=True) + A.const(1)
        r = {"expansion": A.const(1), "compression": A.const(-1)}[kind]
        ULm = [ULm[0]] + [A.const(0)] * d + ULm[d + 1:]
        URm = [URm[0]] + [URm[0] * sp * r * x for x in u] + URm[d + 1:]
    bt = lambda vs: I.store(Mat(len(vs[0]), NB, [vs[g][k] for k in range(len(vs[0])) for g in range(NB)]))
    stack = lambda gs: I.store(Mat(d * NB, nv, [x for g in gs for x in g]))
    v = lambda x: I.store(Mat(len(x), 1, list(x)))
    lam = [I.store(Mat(1, NB, [Top("unset")] * NB)) for _ in range(3)]
    fix = [I.store(Mat(nv, NB, [A.const(0)] * (nv * NB))) for _ in range(2)]
    rs0 = S.rs[rsn or ("Roe_M2" if o.get("rsMeanValueEig") else "HLLC")]
    res = I.call(fn, [bt(UL), bt(UR), v(ULm), v(URm), stack(G), stack(GP), bt(n), bt(vg), v(nC), v(vgC), fix[0], fix[1]] + lam + [A.const(BCZ), A.const(rs0), A.const(f), bool(ign)], this=S)
    got = I.mat(res)
    # ---- the definition
    rs = rs0
    if o.get("rsTypeWall") and bctype == "BCWall":
        rs = o["rsTypeWall"]
    isroe = lambda t: S.rs["Roe_M1"] <= t <= S.rs["Roe_M5"]
    dl = A.var("dLambda%d" % f, positive=True)
    ga = S.gamma

    def riem(ty, g, nn, nnC, k):
        if o.get("rsMeanValueEig") and isroe(ty):
            if isinstance(k, str):
                return S.baL(ty, ULm, URm, vgC, nnC, ga, dl, k)
            return S.baF(ty, UL[g], UR[g], ULm, URm, vg[g], vgC, nn, nnC, ga, dl, k)
        return S.rsF(ty, UL[g], UR[g], ULm, URm, vg[g], nn, ga, dl, k)
    LK = ("l0", "l1", "l4")
    want, wlam = [[None] * NB for _ in range(nv)], [[None] * NB for _ in range(3)]
    dot = lambda a, b: sum((x * y for x, y in zip(a, b)), A.const(0))
    for g in range(NB):
        if kind == "normal":
            fl = [riem(rs, g, n[g], nC, k) for k in range(d + 2)]
            la = [riem(rs, g, n[g], nC, k) for k in LK]
        else:
            n1 = u                                    # the direction of the jump, on the side of the normal
            aux = o.get("rsTypeAux") or rs

            def part(nn):
                a1 = dot(n1, nn)
                t = [x - a1 * y for x, y in zip(nn, n1)]
                a2 = qsqrt(dot(t, t))
                return a1, a2, [x / a2 for x in t]
            a1, a2, n2 = part(n[g])
            n2C = part(nC)[2]
            fl = [a1 * riem(aux, g, n1, n1, k) + a2 * riem(rs, g, n2, n2C, k) for k in range(d + 2)]
            la = [(a1 * riem(aux, g, n1, n1, k) + a2 * riem(rs, g, n2, n2C, k)) / (a1 + a2) for k in LK]
        um = [(a + b) / 2 for a, b in zip(UL[g], UR[g])]
        if nv > d + 2:
            lm = la[1]
            if o.get("ransEigScheme") == 1:
                lm = qmax(qmax(la[1], la[0], "max"), la[2], "max")
            vn = lambda U: dot([x / U[0] - w for x, w in zip(U[1:d + 1], vg[g])], n[g])
            for k in range(d + 2, nv):
                fl.append((vn(UL[g]) * UL[g][k] + vn(UR[g]) * UR[g][k] - (UR[g][k] - UL[g][k]) * lm) / 2)
        if "2EQ" in m:
            ks = um[d + 2] * 2 / 3
            for i in range(d):
                fl[1 + i] = fl[1 + i] + ks * n[g][i]
            fl[d + 1] = fl[d + 1] + ks * dot(um[1:d + 1], n[g]) / um[0]
        if not ign:
            mu = S.muEff(um, S.T(um))
            mt = S.mut(um, G[g], S.muGas, mu, f) if nv > d + 2 else A.const(0)
            tot = mu + mt
            kk = S.Cp * mt / F(9, 10) + S.Cp * mu / A.var("Pr", positive=True)
            rat = mt / tot
            fl = [x - (S.visF(um, GP[g], n[g], bctype == "BCWall", ga, tot, rat, o.get("ransUseQCR", 0), kk, S.Cp, i) if i < d + 2 else
                       S.tflux(um, GP[g], S.muGas, mu, mt, n[g], f, i)) for i, x in enumerate(fl)]
        for k in range(nv):
            want[k][g] = -fl[k]
        for k in range(3):
            wlam[k][g] = la[k]
    t = ", ".join(x for x in (m, bctype, kind, rsn or "", bvcommon.opt(o), "inviscid" if ign else "") if x)
    C = Cmp(R, S, t, fn.loc())
    C("flux", got.v[:(d + 2) * NB], want[:d + 2], "the flux through a face point is not the Riemann flux minus the viscous flux, along the face normal")
    if nv > d + 2:
        C("fluxt", got.v[(d + 2) * NB:], want[d + 2:], "the flux of a turbulence variable is not its upwind convective flux minus its viscous flux")
    for k in range(3):
        C("flux_lambda", I.mat(lam[k]).v, wlam[k], "the wave speed of the face is not the one of its Riemann problem")
    R.count("fluxes")


def source(R, P, m, mode, rot, ig, rans, opts):
    S = Sim(P, m, opts, rot=rot, rans=rans)
    I, A, d, nv = S.I, S.A, S.dim, S.nv
    M = S.M
    g0 = M.vec("gf", 3)
    sv = S.f["settings"].v
    sv["constMassForce"] = Mat(3, 1, g0)
    des = A.var("des", positive=True)
    sv["SADESScale"] = des
    fn = S.find("source")
    q = S.prim("")
    U = S.cons(q)
    G = [A.var("G_%d" % k) for k in range(d * nv)]
    v = lambda x: I.store(Mat(len(x), 1, list(x)))
    J = I.store(Mat(nv, nv, [Top("unset")] * (nv * nv)))
    got = col(I, I.call(fn, [v(U), I.store(Mat(d, nv, G)), v(M.pt("x")), J, A.const(1), A.const(ig), A.const(mode)], this=S))
    w = [A.const(0)] * nv
    cr = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    rv = U[1:d + 1] + [A.const(0)] * (3 - d)
    if mode == 0:
        for i in range(d):
            w[1 + i] = w[1 + i] + g0[i] * U[0]
        w[d + 1] = sum((g0[i] * U[1 + i] for i in range(d)), A.const(0))
        if rot:
            for i, x in enumerate(cr(S.w, rv)[:d]):
                w[1 + i] = w[1 + i] - x
    dw = [A.var("dw1_%d" % k, positive=True) for k in range(2)]
    dd = (dw[0] + dw[1]) / 2 if ig < 0 else dw[ig]
    mu = S.muEff(U, S.T(U))
    tm = 0 if mode == 0 else 1
    tur = {}
    if "SA" in m:
        ar = lambda dist: U + G + [S.muGas, mu, S.gamma, dist, A.const(opts.get("ransSARotCorrection", 0))]
        big = A.app("pow", [I.q(I.glob("DNDS::veryLargeReal")), A.const(F(1, 6))], positive=True)
        dist = qmax(qmax(dd, big, "min"), S.maxlen(1) * des, "min")
        tur[d + 2] = A.app("@sa%d_%d" % (tm, d + 2), ar(dist))
    if "2EQ" in m:
        nm = {"RANS_KOSST": "SST", "RANS_KOWilcox": "KOW", "RANS_RKE": "RKE"}[rans]
        for k in (d + 2, d + 3):
            tur[k] = A.app("@%s%d_%d" % (nm, tm, k), U + G + [mu, dd])
    for k, x in tur.items():
        w[k] = x
    t = ", ".join(x for x in (m, "mode %d" % mode, "rotating" if rot else "", rans or "", "point %d" % ig, bvcommon.opt(opts)) if x)
    C = Cmp(R, S, t, fn.loc())
    if mode == 2:
        C("srcturb", got[d + 2:], w[d + 2:], "the Jacobian's turbulence source is not the one of the model")
        j = I.mat(J).v
        at = lambda a, b: j[a * nv + b]
        e = lambda k: [A.const(int(i == k)) for i in range(3)]
        for k in range(d):
            x = cr(S.w, e(k)) if rot else [A.const(0)] * 3
            C("srcjac", [at(1 + i, 1 + k) for i in range(d)] + [at(d + 1, 1 + k)], x[:d] + [-g0[k]], "the Jacobian of the source is not minus the derivative of the source by the momentum")
        for k in range(d + 2, nv):
            for i in range(nv):
                C("srcjact", [at(i, k)], [w[k] if i == k else A.const(0)], "the Jacobian of the turbulence source is not the model's diagonal")
    else:
        C("source", got, w, "the source is not body force plus frame force plus the turbulence model's source at the point")
    R.count("sources")


def jobs_of(P, m):
    J = []
    tb = "SA" in m or "2EQ" in m
    rs = dict(P.enums[GAS + "RiemannSolverType"]["c"])
    for kind in ("normal", "expansion", "compression"):
        for mean in (0, 1):
            for opts in [{}] + ([{"ransEigScheme": 1}] if tb else []) + ([{"rsTypeAux": rs["Roe"]}, {"rsTypeAux": rs["Roe_M3"]}] if kind in ("expansion", "compression") else []):
                J.append((flux, (P, m, kind, "BCFar", dict(opts, rsMeanValueEig=mean), kind != "normal" and not tb, None), "%s flux %s" % (m, kind)))
        for rsn in (("Roe", "Roe_M1", "Roe_M5", "HLLEP_V1", "HLLC") if kind != "expansion" else ("HLLC", "Roe_M4")):
            for aux in ((0, rs["Roe_M3"], rs["HLLEP"]) if kind != "normal" else (0,)):
                J.append((flux, (P, m, kind, "BCFar", dict(rsMeanValueEig=1, rsTypeAux=aux), True, rsn), "%s flux %s" % (m, kind)))
    for bc in ("BCFar", "BCWall", "BCWallInvis", "BCSym"):
        for ty in (0, rs["HLLEP"], rs["Roe_M1"]):
            for qcr in (0, 1):
                J.append((flux, (P, m, "normal", bc, dict(rsTypeWall=ty, ransUseQCR=qcr, rsMeanValueEig=int(ty != 0)), False, None), "%s flux %s" % (m, bc)))
    J.append((flux, (P, m, "normal", "BCWall", {}, True, None), "%s inviscid flux" % m))
    for mode in (0, 1, 2):
        for rot in (False, True):
            for ig in (-1, 1):
                for ra in (("RANS_RKE", "RANS_KOSST", "RANS_KOWilcox") if "2EQ" in m else (None,)):
                    for ro in ((0, 1) if "SA" in m else (0,)):
                        J.append((source, (P, m, mode, rot, ig, ra, dict(ransSARotCorrection=ro) if ro else {}), "%s source mode %d" % (m, mode)))
    return J


def run(R, tier):
    R.rule("fluxFace and source are interpreted over the extracted syntax tree on formal states, with the Riemann solvers, viscous flux and turbulence closures as opaque functions of their arguments; "
           "the result is compared with the assembly the equations call for")
    models = ["NS_2D", "NS_SA", "NS_2EQ"] if tier == "quick" else list(DIMS)
    jobs = []
    for m in models:
        P = eigen_types(Program(euler_tus([m], ["EulerEvaluator_EvaluateDt"])))
        jobs += jobs_of(P, m)
    run_jobs(R, jobs)
    R.need("fluxes", 40)
    R.need("sources", 20)
