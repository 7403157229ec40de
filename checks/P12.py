"""P12: every time integrator solves the scheme it stands for, at the order it stands for, over every history."""
from prog import *
from refelem import *
from fractions import Fraction as F

ODE = "DNDS::ODE::"
CLS = {"Euler": "ImplicitEulerDualTimeStep", "Sdirk": "ImplicitSDIRK4DualTimeStep", "Bdf": "ImplicitBDFDualTimeStep",
       "Vbdf": "ImplicitVBDFDualTimeStep", "Hermite": "ImplicitHermite3SimpleJacobianDualStep",
       "Ssprk": "ExplicitSSPRK3TimeStepAsImplicitDualTimeStep"}
RTOL = F(1, 10 ** 9)


def run(R, tier):
    P = Program([VERIF + "/units/algebra_ode.cpp"])
    R.rule("Abstract interpretation of Solver/ODE.hpp on a one-value state, with the right-hand side, the inner solver and the increment opaque: each "
           "evaluation F(x) is an unknown of its own and the inner solver returns the unknown stage value, so the residual that is finally handed to "
           "the solver is the scheme's stage equation. Decided: residual = resOther - x/dt + alpha F(x) with the alpha and the stage time handed over; "
           "Runge-Kutta tableaux are consistent and of their order (all rooted trees); multistep equations vanish on every polynomial of their degree for "
           "each state of the history buffer and any sequence of steps; Hermite stages interpolate and integrate to their degree; the new state is the "
           "scheme's combination; the residual-limited variants solve the same equations; the RHS reported is one of the step.")
    R.assume("floating-point rounding is not modelled; tabulated coefficients are compared to %g" % float(RTOL))
    jobs = []
    for pp in (0, 1):
        for k in (1, 2, 3, 4):
            if not pp or k <= 2:
                jobs.append((bdf, ("Bdf", k, pp)))
        for k in (1, 2):
            jobs.append((bdf, ("Vbdf", k, pp)))
    jobs += [(euler, ()), (sdirk, (0,)), (sdirk, (1,)), (ssprk, (0,)), (ssprk, (1,))]
    for mask in (0, 1, 2):
        for al in (F(11, 20), F(1, 3), F(3, 4)):
            jobs.append((hermite, (mask, al, 0)))
        jobs.append((hermite, (mask, F(11, 20), 3)))
    for lim in (0, 1):
        for f, a in jobs:
            lab = "%s%s%s" % (f.__name__, a, " to the iteration limit" if lim else "")
            try:
                f(R, P, lim, *a)
            except SOFT as ex:
                R.undecided(lab, ex)
    R.need("stage_equations", 40)
    downcasts(R, Program(euler_tus(["NS"], ["EulerSolver", "EulerSolver_Init", "EulerSolver_PrintData"]) + DNDS_TUS))


class Sim:
    def __init__(s, R, P, kind, ctor, lim, step="Step"):
        s.R, s.P, s.kind = R, P, kind
        s.I = Interp(P)
        s.A = s.I.A
        s.lim = lim
        s.starter = False
        mk = [f for f in P.by_q.get("DNDSX::mk" + kind, []) if not f.dep]
        st = [f for f in P.by_q.get(ODE + CLS[kind] + "::" + step, []) if not f.dep]
        if not mk or not st:
            raise AnalysisError("%s::%s is not there any more" % (CLS[kind], step))
        s.st = st[0]
        s.lr = [f for f in P.by_q.get(ODE + CLS[kind] + "::getLatestRHS", []) if not f.dep]
        s.where = s.st.loc()
        s.label = CLS[kind] + "::" + step
        o = s.I.call(mk[0], [s.A.const(c) for c in ctor])
        s.obj = o if isinstance(o, LV) else s.I.store(o)
        s.x = s.dat(s.A.var("x0"))
        s.xinc = s.dat(s.A.var("junk_inc"))
        s.n = 0
        s.F = {}               # str(x) -> (atom, x, ct)
        s.steps = []

    def dat(s, q):
        return s.I.store(Rec("DNDSX::Dat", {"v": s.I.store(q)}))

    def get(s, d):
        v = s.I.q(s.I.rv(d).f["v"])
        if not isinstance(v, Q):
            raise Undecided("state value %s" % v)
        return v

    def put(s, d, q):
        s.I.assign(s.I.rv(d).f["v"], q)

    def num(s, a):
        v = s.I.q(a)
        if not isinstance(v, Q):
            raise Undecided("argument %s" % v)
        return v

    def go(s, pp=False):
        """one time step with the symbolic size h_n"""
        A, I = s.A, s.I
        h = A.var("h%d" % s.n, positive=True)
        E = {"h": h, "x": s.get(s.x), "solve": [], "F": [], "inc": [], "pp": [], "pos": {}, "slot": {}, "iters": {}, "stage": {}}
        sol = {}

        def frhs(I, fr, n, a):
            x, ct = s.get(a[1]), s.num(a[4])
            pos(a[1], a[5], "the right-hand side is evaluated")
            k = str(x)
            if k not in s.F:
                s.F[k] = (A.var("F%d" % len(s.F)), x)
            E["F"].append((s.F[k][0], x, ct))
            s.put(a[0], s.F[k][0])

        def pos(d, p, what, solved=False):
            """the position tells the caller which of its own work arrays belong to this state"""
            c, p = cell(I, d), I.int(p)
            own = c == cell(I, s.x)
            at = E["pos"].setdefault(c, p)
            s.R.count("positions")
            if at != p or own and p != 0 or solved and E["slot"].setdefault(p, c) != c:
                s.bad("position", "%s for %s at position %d, which is not the position of that state" % (what, "the stepped state" if own else "an intermediate state", p))

        def fdt(I, fr, n, a):
            pos(a[0], a[3], "the pseudo time step is computed")
            s.put(a[1], A.var("tau%d" % s.n, positive=True))

        def fsolve(I, fr, n, a):
            x, res, oth, dt, al, ct, up = s.get(a[0]), s.get(a[1]), s.get(a[2]), s.num(a[4]), s.num(a[5]), s.num(a[8]), I.int(a[9])
            pos(a[0], a[9], "the increment is solved", True)
            k = (str(ct), up)
            E["iters"][k] = E["iters"].get(k, 0) + 1
            first = k not in sol
            if first:
                sol[k] = A.var("X%d_%d" % (s.n, len(sol)))
            E["solve"].append((k, first, x, res, oth, dt, al, ct))
            if E.get("pending"):
                s.bad("drop", "the increment solved for the stage at time fraction %s is never applied" % E["pending"][1])
            E["pending"] = (cell(I, a[0]), ct, cell(I, a[6]))
            s.put(a[6], sol[k] - x)

        def finc(I, fr, n, a):
            f = s.num(a[2])
            pos(a[0], a[3], "the increment is applied")
            if E.get("pending") and E["pending"][0] == cell(I, a[0]) and E["pending"][2] == cell(I, a[1]) and (f - A.const(1)).iszero():
                E["pending"] = None
            s.put(a[0], s.get(a[0]) + f * s.get(a[1]))

        def fstop(I, fr, n, a):
            st = I.int(a[2])
            if E["solve"]:
                k = E["solve"][-1][0]
                if k[1] == 0 and E["stage"].setdefault(st, k) != k and E["stage"][st][1] == 0:
                    s.bad("stagenumber", "the stop criterion of the stage at time fraction %s is asked under the number %d of another stage" % (k[0], st))
            return bool(not s.lim and I.int(a[0]) >= 4)

        def falpha(I, fr, n, a):
            return None

        def fpp(I, fr, n, a):
            x, xp, rhs = s.get(a[0]), s.get(a[1]), s.get(a[2])
            f = I.rv(a[4])
            I.apply(fr, n, f, [], [])
            E["pp"].append((x, xp, rhs, s.get(a[3])))
        args = [s.x, s.xinc, frhs, fdt, fsolve, A.const(4), fstop, finc, I.store(h)]
        if not s.lim:
            args[5] = A.const(9)
        if pp:
            args += [falpha, fpp]
        I.call(s.st, args, this=s.obj)
        if E.get("pending"):
            s.bad("drop", "the increment solved for the stage at time fraction %s is never applied" % E["pending"][1])
        E["out"] = s.get(s.x)
        E["sol"] = dict((v.__str__(), k) for k, v in sol.items())
        E["X"] = sol
        if s.lr:
            E["rhs"] = s.get(I.call(s.lr[0], [], this=s.obj))
        s.n += 1
        s.steps.append(E)
        s.R.count("steps")
        return E

    # ---- judgements
    def bad(s, key, text):
        s.R.viol("%s|%s" % (s.label, key), s.where, "%s: %s" % (s.label, text))

    def common(s, E):
        h, A = E["h"], s.A
        for k, c in E["iters"].items():
            s.R.count("iteration_counts")
            if c != 4 and not s.starter:
                s.bad("iterations", "the stage at time fraction %s is iterated %d times, %s 4 times" %
                      (k[0], c, "the limit is" if s.lim else "the stop criterion is met after"))
        for k, first, x, res, oth, dt, al, ct in E["solve"]:
            if not (dt - h).iszero():
                s.bad("dt", "the inner solver is given the step size %s, the step is %s" % (dt, h))
            if first:
                continue
            fx = s.F.get(str(x))
            s.R.count("residuals")
            if fx is None:
                s.bad("eval", "the residual of the stage at time fraction %s is formed without evaluating the right-hand side at the stage value" % ct)
                continue
            if not small(res - (oth - x / h + al * fx[0])):
                s.bad("residual", "the residual handed to the solver is not resOther - x/dt + alpha F(x) with the alpha handed over (stage time %s)" % ct)
            times = [c for f, y, c in E["F"] if (y - x).iszero()]
            if not any((c - ct).iszero() for c in times):
                s.bad("time", "the stage solved at time fraction %s evaluates the right-hand side at %s" % (ct, ", ".join(map(str, times[:2]))))
        if s.lr:
            s.R.count("reported_rhs")
            r = E["rhs"]
            if not any((f - r).iszero() for f, x, ct in E["F"]) and not any((v[0] - r).iszero() for v in s.F.values()):
                s.bad("latest", "getLatestRHS() is not a right-hand side evaluated by the step: %s" % short(r))

    def finals(s, E):
        """stage key -> last residual"""
        out = {}
        for k, first, x, res, oth, dt, al, ct in E["solve"]:
            if not first:
                out[k] = (res, ct)
        return out

    def lin(s, q, what):
        """coefficients of a linear form in the atoms named by what (dict name -> meaning)"""
        out = {}
        rest = q
        for nm, atom in what.items():
            c = q.diff(atom)
            if any(str(w) in map(str, atoms_of(c)) for w in what.values()):
                raise Undecided("not linear")
            out[nm] = c
            rest = rest - c * atom
        return out, rest


def cell(I, d):
    return I.rv(d).f["v"].c


def atoms_of(q):
    return [q.A.name[a] for a in q.atoms()]


def small(q):
    """zero up to the digits of tabulated coefficients"""
    if q.iszero():
        return True
    m = q.maxcoef()
    return m is not None and m <= RTOL


def short(q):
    t = str(q)
    return t if len(t) < 120 else t[:117] + "..."


def value(q, mp):
    """substitute atom name -> Q"""
    A = q.A
    return q.subs(dict((a, mp[A.name[a]]) for a in q.atoms() if A.name[a] in mp))


def poly_check(S, E, res, times, upto, key, what):
    """res (a linear form of values x and slopes F) vanishes for every polynomial of degree <= upto; times: atom -> (kind, time)"""
    A = S.A
    left = [a for a in atoms_of(res) if a not in times and not a.startswith("h")]
    S.R.count("stage_equations")
    if left:
        S.bad(key + "|foreign", "%s depends on %s, which is no value of this scheme" % (what, ", ".join(left[:4])))
        return
    for m in range(upto + 1):
        mp = {}
        for a, (kind, t) in times.items():
            if kind == "x":
                mp[a] = t ** m if m else A.const(1)
            else:
                mp[a] = A.const(0) if m == 0 else A.const(1) if m == 1 else A.const(m) * t ** (m - 1)
        v = value(res, mp)
        if not small(v):
            S.bad(key, "%s is not satisfied by x = t^%d: %s is left" % (what, m, short(v)))
            return


def euler(R, P, lim):
    S = Sim(R, P, "Euler", [], lim)
    for i in range(3):
        E = S.go()
        S.common(E)
        multistep(S, E, 1)


def times_of(S, E, hist):
    """atom name -> (kind, time) with time 0 at the start of the step, for the known values in the given history of start values"""
    A = S.A
    t = {}
    off = A.const(0)
    for k in range(len(S.steps) - 1, -1, -1):
        e = S.steps[k]
        t[str(e["x"])] = ("x", off) if str(e["x"]) not in t else t[str(e["x"])]
        if k:
            off = off - S.steps[k - 1]["h"]
    return t


def multistep(S, E, k, degree=None):
    A, h = S.A, E["h"]
    fin = S.finals(E)
    if len(fin) != 1:
        S.bad("stages", "the step solves %d stages" % len(fin))
        return
    (key, (res, ct)), = fin.items()
    X = E["X"][key]
    if not (E["out"] - X).iszero():
        S.bad("out", "the new state is not the solution of the step's equation: %s" % short(E["out"]))
    t = times_of(S, E, k)
    t[str(X)] = ("x", h)
    fx = S.F.get(str(X))
    if fx:
        t[str(fx[0])] = ("F", h)
    if not (ct - A.const(1)).iszero():
        S.bad("time", "the step's equation is at the end of the step, the stage time handed over is %s" % ct)
    order = min(len(S.steps), k) if degree is None else degree
    poly_check(S, E, res, t, order, "order|%d" % k, "the equation of step %d (order %d)" % (len(S.steps), order))
    # it has to contain the right-hand side with a nonzero weight
    if fx and res.diff(fx[0]).iszero():
        S.bad("norhs", "the equation of the step does not contain the right-hand side at the new state")


def bdf(R, P, lim, kind, k, pp):
    S = Sim(R, P, kind, [k], lim, "StepPP" if pp else "Step")
    A = S.A
    for i in range(2 * k + 2):
        E = S.go(pp)
        if kind == "Bdf":
            # the scheme is the constant-step one
            mp = dict(("h%d" % j, A.var("h0", positive=True)) for j in range(i + 1))
            for e in (E,):
                e["h"] = mp["h0"]
                e["solve"] = [(kk, f, x, value(r, mp), value(o, mp), value(d, mp), al, ct) for kk, f, x, r, o, d, al, ct in e["solve"]]
                e["pp"] = [tuple(value(v, mp) for v in p) for p in e["pp"]]
        S.common(E)
        multistep(S, E, k)
        h = E["h"]
        for x, xp, rhs, inc in E["pp"][-1:]:
            S.R.count("limited_increments")
            fx = S.F.get(str(x))
            if fx is None or not (rhs - fx[0]).iszero():
                S.bad("pp|rhs", "the right-hand side handed to the residual limiter is not the one of the current state")
            res = [s for s in E["solve"] if not s[1]][-1][3]
            if not small(xp + inc - x - res * h):
                S.bad("pp|inc", "base state plus increment handed to the residual limiter is not the state the step's equation asks for: "
                                "base + increment - x - dt residual = %s" % short(xp + inc - x - res * h))


TREES = [  # (order, name, condition on (A, b, c))
    (1, "b.1 = 1", lambda A, b, c: sum(b) - 1),
    (2, "b.c = 1/2", lambda A, b, c: dot(b, c) - F(1, 2)),
    (3, "b.c^2 = 1/3", lambda A, b, c: dot(b, [x * x for x in c]) - F(1, 3)),
    (3, "b.A.c = 1/6", lambda A, b, c: dot(b, mv(A, c)) - F(1, 6)),
    (4, "b.c^3 = 1/4", lambda A, b, c: dot(b, [x ** 3 for x in c]) - F(1, 4)),
    (4, "b.(c A c) = 1/8", lambda A, b, c: dot(b, [x * y for x, y in zip(c, mv(A, c))]) - F(1, 8)),
    (4, "b.A.c^2 = 1/12", lambda A, b, c: dot(b, mv(A, [x * x for x in c])) - F(1, 12)),
    (4, "b.A.A.c = 1/24", lambda A, b, c: dot(b, mv(A, mv(A, c))) - F(1, 24)),
]


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), F(0))


def mv(A, x):
    return [dot(r, x) for r in A]


def tableau(S, E, order, rows, cs, b, tol):
    """rows: per stage {F atom name: coefficient}; the atoms in stage order"""
    names = [n for n, _ in cs]
    A = [[r.get(n, F(0)) for n in names] for r in rows]
    c = [x for _, x in cs]
    bb = [b.get(n, F(0)) for n in names]
    S.R.count("tableaux")
    for i, r in enumerate(A):
        S.R.count("stage_equations")
        if abs(sum(r) - c[i]) > tol:
            S.bad("rowsum", "stage %d stands at time fraction %.10g, its coefficients sum to %.10g" % (i, c[i], sum(r)))
    cc = [sum(r) for r in A]
    for o, nm, f in TREES:
        if o > order:
            continue
        S.R.count("order_conditions")
        v = f(A, bb, cc)
        if abs(v) > tol:
            S.bad("order", "order condition %s fails by %.3g: the scheme is not of order %d" % (nm, v, order))


def coefs(S, q, E, base, Fs, what):
    """q = base + h sum c_j F_j -> {F name: c_j}"""
    out = {}
    rest = q - base
    for nm, atom in Fs:
        c = q.diff(atom) / E["h"]
        if not c.isconst():
            S.bad("form", "%s has the coefficient %s on a stage slope" % (what, short(c)))
            return None
        out[nm] = c.constant()
        rest = rest - c * E["h"] * atom
    if not small(rest):
        S.bad("form", "%s is not the old state plus step size times stage slopes: %s is left" % (what, short(rest)))
        return None
    return out


def sdirk(R, P, lim, code):
    S = Sim(R, P, "Sdirk", [code], lim)
    tol = RTOL if code == 0 else F(1, 10 ** 7)
    for step in range(3):
        E = S.go()
        S.common(E)
        h, x0 = E["h"], E["x"]
        fin = S.finals(E)
        stages = []            # (X, c, residual)
        for k, (res, ct) in fin.items():
            stages.append((E["X"][k], ct, res))
        Fs, cs = [], []
        f0 = S.F.get(str(x0))
        explicit = code == 1
        if explicit:
            if f0 is None:
                S.bad("first", "the explicit first stage does not use the right-hand side at the old state")
                return
            first = [ct for f, x, ct in E["F"] if (x - x0).iszero()] if not step else []
            if first and not first[0].iszero():
                S.bad("time", "the explicit first stage evaluates the right-hand side at time fraction %s" % first[0])
            Fs.append((str(f0[0]), f0[0]))
            cs.append((str(f0[0]), F(0)))
        for X, ct, res in stages:
            f = S.F.get(str(X))
            if f is None:
                S.bad("eval", "a stage does not evaluate the right-hand side at its own value")
                return
            Fs.append((str(f[0]), f[0]))
            cs.append((str(f[0]), ct.constant()))
        rows = [{}] if explicit else []
        for X, ct, res in stages:
            r = coefs(S, res * h + X, E, x0, Fs, "the equation of the stage at %s" % ct)
            if r is None:
                return
            rows.append(r)
        last = [X for X, ct, res in stages if (E["out"] - X).iszero()]
        if last:
            b = rows[[i for i, (X, ct, res) in enumerate(stages) if (E["out"] - X).iszero()][0] + (1 if explicit else 0)]
        else:
            b = coefs(S, E["out"], E, x0, Fs, "the new state")
            if b is None:
                return
        tableau(S, E, 4, rows, cs, b, tol)


def ssprk(R, P, lim, local):
    S = Sim(R, P, "Ssprk", [local], lim)
    for step in range(2):
        E = S.go()
        S.common(E)
        if local:
            E["h"] = S.A.var("tau%d" % step, positive=True)
        Fs, cs, rows = [], [], []
        for f, x, ct in E["F"]:
            r = coefs(S, x, E, E["x"], Fs, "the state of stage %d" % len(Fs))
            if r is None:
                return
            rows.append(r)
            Fs.append((str(f), f))
            cs.append((str(f), ct.constant()))
        b = coefs(S, E["out"], E, E["x"], Fs, "the new state")
        if b is None:
            return
        tableau(S, E, 3, rows, cs, b, RTOL)


def hermite(R, P, lim, mask, al, nstart):
    S = Sim(R, P, "Hermite", [al, 0, nstart, F(9146, 10000), mask], lim)
    S.starter = nstart > 0
    A = S.A
    ratio = [A.const(1), A.const(2), A.const(F(1, 2)), A.const(F(5, 4)), A.const(500)]
    for step in range(4 if mask == 2 else 2):
        # step sizes of known ratio, so that the choice by size ratio is decided
        E = None
        old = A.var
        hs = [ratio[i] * old("h", positive=True) for i in range(step + 1)]
        A.var = lambda nm, positive=False: hs[int(nm[1:])] if re.match(r"h\d+$", nm) else old(nm, positive)
        try:
            E = S.go()
        finally:
            A.var = old
        S.common(E)
        h = E["h"]
        fin = S.finals(E)
        X1 = [E["X"][k] for k in fin if k[1] == 0]
        Xm = [E["X"][k] for k in fin if k[1] == 1]
        if len(X1) != 1 or len(Xm) != 1:
            S.bad("stages", "the step does not solve one middle and one end stage")
            return
        X1, Xm = X1[0], Xm[0]
        ctm = [fin[k][1] for k in fin if k[1] == 1][0]
        t = {}
        t[str(E["x"])] = ("x", A.const(0))
        if step:
            t[str(S.steps[-2]["x"])] = ("x", -S.steps[-2]["h"])
        t[str(X1)], t[str(Xm)] = ("x", h), ("x", h * ctm)
        for X, tt in ((E["x"], A.const(0)), (X1, h), (Xm, h * ctm)):
            f = S.F.get(str(X))
            if f:
                t[str(f[0])] = ("F", tt)
        if not (E["out"] - X1).iszero():
            S.bad("out", "the new state is not the solution of the end stage")
        deg = 2 if mask == 1 or mask == 2 and step == 0 else 3
        for k, (res, ct) in fin.items():
            poly_check(S, E, res, t, 3 if k[1] == 0 else deg, "hermite|%d|%s" % (mask, "end" if k[1] == 0 else "mid"),
                       "the %s equation of step %d (mask %d)" % ("end" if k[1] == 0 else "middle", step + 1, mask))


def downcasts(R, P):
    """an integrator (or any other object chosen by configuration) is used as the type that was built under the same setting"""
    import guards as G
    built, casts = {}, []
    R.rule("Guard analysis of the whole program: where a shared_ptr member is downcast under switch labels / equality tests of a setting, every "
           "construction of that member that is reachable under a compatible setting has to build that type.")
    for f in P.fns.values():
        if f.dep or not f.body or "/src/" not in f.file:
            continue
        for n, g in G.guarded(P, f):
            if n["k"] == "OpCall" and n["op"] == "=" or n["k"] == "Asg":
                a, b = (n["args"] if n["k"] == "OpCall" else (n["a"], n["b"]))[:2]
                m = [x for x in walk(b) if x["k"] == "Call" and (P.callee_q(f, x) or "").startswith("std::make_shared")]
                p = G.key(P, f, a)
                if m and p:
                    built.setdefault((cls(f), p), []).append((f, n, g, elem(P.type(f, m[0]))))
            if n["k"] == "Call" and (P.callee_q(f, n) or "") == "std::dynamic_pointer_cast":
                casts.append((f, n, g))
    for f, n, g in casts:
        p = G.key(P, f, n["args"][0])
        if not p or None in g:
            continue
        want = elem(P.type(f, n))
        R.count("downcasts")
        for bf, bn, bg, t in built.get((cls(f), p), []):
            if t is None or want is None or not {x[0] for x in g if x} & {x[0] for x in bg if x} or not G.compatible(g, bg):
                continue
            R.count("downcast_constructions")
            if t != want and not derives(P, t, want):
                R.viol("downcast|%s|%s" % (p, want.split("<")[0]), P.where(f, n),
                       "%s is used as %s where the same setting builds %s (%s): the cast gives a null pointer" % (p, want.split("<")[0], t.split("<")[0], P.where(bf, bn)))
    R.need("downcast_constructions", 1)


def cls(f):
    return f.q.split("<")[0].rsplit("::", 1)[0]


def elem(t):
    m = re.search(r"shared_ptr<(.*)>", t or "")
    return re.sub(r"\b(class|struct) ", "", m.group(1)).strip() if m else None


def derives(P, t, want):
    r = P.records.get(t) or {}
    return any(want == b or derives(P, b, want) for b in r.get("bases", []) if b != t)
