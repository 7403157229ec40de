"""P18: boundary states."""
from prog import *
from fvmodel import *
from report import run_jobs
from evcommon import *
from fractions import Fraction as F
from bvcommon import *


REG = {"out+": "supersonic outflow", "out": "subsonic outflow", "in": "subsonic inflow", "in+": "supersonic inflow"}


def far(R, P, m, bc, regime, anchor, kw):
    kw = dict(kw)
    fl = {"frameOpt": kw.pop("frameOpt", 0), "anchorOpt": anchor if bc == "BCOutP" else 0}
    has = kw.pop("has", True)
    S = Sim(P, m, flags=fl, **kw)
    I, A, d = S.I, S.A, S.dim
    special = bc == "default far"
    S.bctype = S.bcenum["BCFar" if special else bc]
    iG = kw.get("iG", 0)
    S.at(2 if special else 1, iG)
    q = S.inner(regime)
    UL = S.cons(q)
    an = S.prim("A")
    S.f["anchorRecorders"] = Table(has, Rec("Anchor", {"val": I.store(Mat(S.nv, 1, S.cons(an)))}))
    S.f["profileRecorders"] = Table(has, Profile(S))
    got, ul = S.call(UL, S.cons(S.prim("m")), 3 if special else BCZ, iG)
    fa = S.far0 if special else S.farv
    if S.cl:
        fa = S.turn(fa, S.aoa)
    if bc == "BCFar" and S.rot and fl["frameOpt"]:
        fa = S.turn(fa, S.Rax([-(x * S.t) for x in S.w]))
    # the energy of the far state belongs to the velocity as given: a rotation keeps it
    E = (S.far0 if special else S.farv)
    v2 = lambda v: sum((x * x for x in v[1:d + 1]), A.const(0))
    pfar = fa[d + 1] + S.g1 * fa[0] / 2 * (v2(E) - v2(fa)) if fa is not E else fa[d + 1]
    fa = fa[:d + 1] + [pfar] + fa[d + 2:]
    st = q
    if regime == "out+":
        w = st
    elif regime == "out":
        p = fa[d + 1]
        if bc == "BCOutP" and anchor == 1:
            p = p + qmax(st[d + 1] - (an if has else q)[d + 1], A.const(F(-19, 20)) * p, "max")
        if bc == "BCOutP" and anchor == 2 and has:
            nr = qsqrt(sum((x * x for x in S.M.vec("rv", 3)), A.const(0)))
            p = p + qmax(A.app("@prof%d" % (d + 1), [nr]), A.const(F(-19, 20)) * p, "max")
        w = st[:d + 1] + [p] + st[d + 2:]
    elif regime == "in":
        w = fa[:d + 1] + [st[d + 1]] + fa[d + 2:]
    else:
        w = fa
    C = Cmp(R, S, tag(m, bc, dict(kw, anchor=anchor, **fl), REG[regime]), S.fn.loc())
    what = {"out+": "the interior state", "out": "the interior state with the outer pressure", "in": "the outer state with the interior pressure", "in+": "the outer state"}[regime]
    C("far|" + regime, got, S.cons(w), "%s: the boundary state of %s is not %s" % (bc, REG[regime], what))
    C("farUL", ul, UL, "%s: the interior state is changed" % bc)
    R.count("boundary_states")


def wall(R, P, m, bc, rans, fix, kw):
    kw = dict(kw)
    fl = {"frameOpt": kw.pop("frameOpt", 0)}
    S = Sim(P, m, flags=fl, rans=0, **kw)
    I, A, d = S.I, S.A, S.dim
    if rans:
        S.f["settings"].v["ransModel"] = A.const(S.ransenum[rans])
    S.bctype = S.bcenum[bc]
    iG = kw.get("iG", 0)
    S.at(1, iG)
    q = S.prim("")
    UL = S.cons(q)
    mq = S.prim("m")
    got, ul = S.call(UL, S.cons(mq), BCZ, iG, fixUL=fix)
    C = Cmp(R, S, tag(m, bc, dict(kw, rans=rans, fix=fix, **fl)), S.fn.loc())
    if bc == "BCOut":
        C("out", got, UL, "outflow: the boundary state is not the interior state")
    elif bc == "BCWall":
        moving = not fl["frameOpt"]         # the wall moves with the rotating frame
        w = S.shift(q, -1) if moving else list(q)
        w = [w[0]] + [-x for x in w[1:d + 1]] + list(w[d + 1:])
        w = S.shift(w, 1) if moving else w
        c = S.cons(w)
        n1 = d + 2
        if "SA" in m or "2EQ" in m:
            for k in range(n1, S.nv):
                c[k] = -c[k]
        if "SA" in m and fix:
            c[n1] = A.const(0)
            UL = UL[:n1] + [A.const(0)] + UL[n1 + 1:]
        if "2EQ" in m and rans:
            dd = (A.var("dw0_0", positive=True) + A.var("dw0_1", positive=True)) / 2
            T = mq[d + 1] / ((S.gamma - 1) / S.gamma * S.Cp * mq[0])
            mu = S.muEff(S.cons(mq), T)
            if rans == "RANS_RKE":
                c[d + 3] = 2 * (2 * mu / mq[0] * mq[d + 2] / (dd * dd)) * q[0] - UL[d + 3]
            else:
                c[d + 3] = 2 * (800 * mu / (dd * dd)) - UL[d + 3]
        C("wall", got[:n1], c[:n1], "viscous wall: the boundary state does not reverse the velocity relative to the wall at the same density and pressure")
        if S.nv > n1:
            C("wallturb", got[n1:], c[n1:], "viscous wall: the mean of interior and boundary turbulence variables is not the wall value")
    else:
        w = S.shift(q, -1)
        vn = sum((a * b for a, b in zip(w[1:d + 1], S.n)), A.const(0))
        w = S.shift([w[0]] + [a - 2 * vn * b for a, b in zip(w[1:d + 1], S.n)] + list(w[d + 1:]), 1)
        C("mirror", got, S.cons(w), "%s: the boundary state is not the mirror image of the interior state" % bc)
    C("wallUL", ul, UL, "%s: the interior state is not left as it was%s" % (bc, " (with the wall's turbulence variable)" if "SA" in m and fix else ""))
    R.count("boundary_states")


def inflow(R, P, m, bc, kw):
    S = Sim(P, m, **kw)
    I, A, d = S.I, S.A, S.dim
    S.bctype = S.bcenum[bc]
    S.at(1, 0)
    q = S.prim("")
    UL = S.cons(q)
    if bc == "BCIn":
        got, ul = S.call(UL, S.cons(S.prim("m")), BCZ)
        c = list(S.bval)
        if S.cl:
            c = S.turn(c, S.aoa)
        # keep the energy of the given state, change the frame
        rho = c[0]
        v = [x / rho for x in c[1:d + 1]]
        p = S.g1 * (c[d + 1] - rho * sum((x * x for x in v), A.const(0)) / 2)
        w = [rho] + v + [p] + [x / rho for x in c[d + 2:]]
        C = Cmp(R, S, tag(m, bc, kw), S.fn.loc())
        C("in", got, S.cons(w), "inflow: the boundary state is not the given one")
    else:
        ps, ts = A.var("pStag", positive=True), A.var("tStag", positive=True)
        dr = S.M.vec("dir", S.nv)[:d]
        S.bval = [ps, ts] + dr + [A.var("yb%d" % k) for k in range(S.nv - d - 2)]
        got, ul = S.call(UL, S.cons(S.prim("m")), BCZ)
        st = q
        v2 = sum((x * x for x in st[1:d + 1]), A.const(0))
        v2 = qmax(v2, ts * 2 * S.Cp * A.const(F(19, 20)), "min")
        T = ts - v2 / (2 * S.Cp)
        p = ps * S.I.A.app("pow", [T / ts, S.gamma / S.g1], True)
        nd = qsqrt(sum((x * x for x in dr), A.const(0)))
        w = [p / (S.Rg * T)] + [x / nd * qsqrt(v2) for x in dr] + [p] + S.bval[d + 2:]
        c = S.cons(w)
        if S.cl:
            c = S.turn(c, S.aoa)
            rho = c[0]
            v = [x / rho for x in c[1:d + 1]]
            p = S.g1 * (c[d + 1] - rho * sum((x * x for x in v), A.const(0)) / 2)
            w = [rho] + v + [p] + [x / rho for x in c[d + 2:]]
        C = Cmp(R, S, tag(m, bc, kw), S.fn.loc())
        C("inps", got, S.cons(w), "stagnation inflow: the boundary state does not have the stagnation pressure and temperature and direction given")
    C("inUL", ul, UL, "inflow: the interior state is changed")
    R.count("boundary_states")


def jobs_of(P, m):
    J = []
    for rot in (False, True):
        for cl in (False, True):
            if rot and cl:
                continue
            kw = dict(rot=rot, cl=cl)
            for bc in ("BCFar", "BCOutP", "default far"):
                for rg in REG:
                    for an in ((0, 1, 2) if bc == "BCOutP" and rg == "out" else (0,)):
                        for fo in ((0, 1) if bc == "BCFar" and rot else (0,)):
                            for has in ((True, False) if an else (True,)):
                                J.append((far, (P, m, bc, rg, an, dict(kw, frameOpt=fo, has=has)), "%s %s %s" % (m, bc, rg)))
            for bc in ("BCIn", "BCInPsTs"):
                J.append((inflow, (P, m, bc, dict(kw)), "%s %s" % (m, bc)))
        for bc in ("BCWall", "BCWallInvis", "BCSym", "BCOut"):
            for fo in ((0, 1) if bc == "BCWall" and rot else (0,)):
                for ra in (("RANS_RKE", "RANS_KOSST", "RANS_KOWilcox") if "2EQ" in m and bc == "BCWall" else (0,)):
                    J.append((wall, (P, m, bc, ra, False, dict(rot=rot, frameOpt=fo)), "%s %s" % (m, bc)))
                    if rot:
                        for g in (-1, -2):
                            J.append((wall, (P, m, bc, ra, False, dict(rot=rot, frameOpt=fo, iG=g)), "%s %s" % (m, bc)))
                    if bc == "BCWall":
                        J.append((wall, (P, m, bc, ra, True, dict(rot=rot, frameOpt=fo)), "%s %s" % (m, bc)))
        if rot:
            for g in (-1, -2):
                for rg in REG:
                    J.append((far, (P, m, "BCFar", rg, 0, dict(rot=rot, iG=g)), "%s BCFar %s" % (m, rg)))
    return J


def run(R, tier):
    R.rule("generateBoundaryValue is interpreted over the extracted syntax tree on formal states, once for each boundary type, flow regime (normal velocity against the speed of sound, decided by sign) and option; the result is compared "
           "with the boundary condition as rational function")
    models = ["NS_2D", "NS_SA", "NS_2EQ"] if tier == "quick" else list(DIMS)
    jobs = []
    for m in models:
        P = eigen_types(Program(euler_tus([m], ["EulerEvaluator_EvaluateDt"])))
        jobs += jobs_of(P, m)
    run_jobs(R, jobs)
    R.need("boundary_states", 40)
