"""P22: index tables of the mesh: conversions between global and local numbering, and the index mappings behind them."""
import itertools
from prog import *
from fvmodel import *
from evcommon import Cmp
from report import run_jobs

UM = "DNDS::Geom::UnstructuredMesh"
KIND = {"cell2node": "cn", "cell2cell": "cc", "cell2face": "cf", "bnd2node": "bn", "bnd2cell": "bc", "face2node": "fn", "face2cell": "fc",
        "node2cell": "nc", "node2bnd": "nb", "coords": "n", "cellElemInfo": "c", "bndElemInfo": "b", "faceElemInfo": "f", "cell2nodePbi": "c",
        "face2nodePbi": "f", "bnd2nodePbi": "b"}
NAME = {"c": "cell", "n": "node", "f": "face", "b": "boundary"}
LO, HI = 1000, 10 ** 6


class Tab(Obj):
    """array pair over entities of one kind; entries are given cells"""

    def __init__(s, I, name, rows, nf):
        s.name, s.rows, s.nf = name, rows, nf
        s.row, s.to = KIND[name][0], KIND[name][1:]
        s.all = rows
        s.ps = None                       # stage of the ghost set-up, where it is followed

    def follow(s):
        s.ps = {"attached": False, "owners": False, "ghost": None, "types": None, "pulled": None}
        s.rows = s.all[:s.nf]
        return s

    def idx(s, I, fr, n, a, lo=0, hi=None):
        k = I.int(a[0]) + lo
        hi = len(s.rows) if hi is None else hi
        if not lo <= k < hi:
            raise I.broken("%s row %d of %d" % (s.name, k - lo, hi - lo))
        if len(a) > 1:
            j = I.int(a[1])
            if not 0 <= j < len(s.rows[k]):
                raise I.broken("%s(%d,%d) in a row of %d entries" % (s.name, k, j, len(s.rows[k])))
            return s.rows[k][j]
        return TRow(s, k)

    def meth(s, I, fr, n, nm, args, lo=0, hi=None):
        hi = len(s.rows) if hi is None else hi
        a = [I.ev(fr, x) for x in args]
        if nm == "TransAttach" and s.ps is not None:
            s.ps.update(attached=True, owners=False, ghost=None, types=None)
            return None
        if nm in ("operator[]", "operator()", "at"):
            return s.idx(I, fr, n, a, lo, hi)
        if nm in ("Size", "size"):
            return I.A.const(hi - lo)
        if nm == "RowSize" and len(a) == 1:
            k = I.int(a[0]) + lo
            if not lo <= k < hi:
                raise I.broken("row size of row %d of %s, which has %d" % (k - lo, s.name, hi - lo))
            return I.A.const(len(s.rows[k]))
        return NotImplemented

    def fld(s, I, fr, n):
        m = n["n"]
        if m == "father":
            return Side(s, 0, s.nf)
        if m == "son":
            return Side(s, s.nf, len(s.rows))
        if m == "trans":
            return Trans(s)
        return Obj.fld(s, I, fr, n)


class Side(Obj):
    def __init__(s, t, lo, hi):
        s.t, s.lo, s.hi = t, lo, hi

    def idx(s, I, fr, n, a):
        return s.t.idx(I, fr, n, a, s.lo, s.hi)

    def meth(s, I, fr, n, nm, args):
        return s.t.meth(I, fr, n, nm, args, s.lo, s.hi)

    def fld(s, I, fr, n):
        if n["n"] == "pLGlobalMapping" and s.lo == 0:
            if s.t.ps is not None and not s.t.ps["owners"]:
                raise Undecided("owners' numbering of %s" % s.t.name)
            return GMap(s.t.row)
        if n["n"] == "pLGlobalMapping":
            raise Undecided("numbering of the ghost side")
        return Obj.fld(s, I, fr, n)


class TRow(Obj):
    def __init__(s, t, k):
        s.t, s.k = t, k

    def idx(s, I, fr, n, a):
        return s.t.idx(I, fr, n, [I.A.const(s.k)] + list(a))

    def meth(s, I, fr, n, nm, args):
        r = s.t.rows[s.k]
        if nm in ("size", "Size"):
            return I.A.const(len(r))
        if nm in ("operator[]", "operator()", "at"):
            return s.idx(I, fr, n, [I.ev(fr, x) for x in args])
        if nm in ("begin", "end", "cbegin", "cend"):
            return Ptr(list(r), len(r) if "end" in nm else 0)
        return NotImplemented

    def items(s, I):
        return list(s.t.rows[s.k])


class Trans(Obj):
    """the exchange object of an array pair; where the set-up is followed, each step needs the steps before it"""

    def __init__(s, t):
        s.t = t

    def meth(s, I, fr, n, nm, args):
        ps, t = s.t.ps, s.t
        if ps is None or nm not in ("createFatherGlobalMapping", "createGhostMapping", "BorrowGGIndexing", "createMPITypes", "pullOnce"):
            return NotImplemented
        a = [I.ev(fr, x) for x in args]
        if not ps["attached"]:
            raise I.broken("%s of %s before the exchange object is attached" % (nm, t.name))
        if nm == "createFatherGlobalMapping":
            ps["owners"] = True
        elif nm == "createGhostMapping":
            l = I.rv(a[0])
            if len(a) != 1 or not isinstance(l, Seq_):
                raise Undecided("ghost mapping of something else")
            if not ps["owners"]:
                raise I.broken("ghost mapping of %s before the owners' numbering" % t.name)
            ps.update(ghost=(t.name, [I.q(x) for x in l.e]), types=None)
        elif nm == "BorrowGGIndexing":
            o = I.rv(a[0])
            if not isinstance(o, Trans) or o.t.ps is None:
                raise Undecided("indexing borrowed from something else")
            if o.t.row != t.row:
                raise I.broken("%s, an array over %ss, takes over the ghosts of %s, an array over %ss" % (t.name, NAME[t.row], o.t.name, NAME[o.t.row]))
            if o.t.ps["ghost"] is None:
                raise I.broken("%s takes over the ghosts of %s before there are any" % (t.name, o.t.name))
            ps.update(ghost=o.t.ps["ghost"], owners=True, types=None)
        elif nm == "createMPITypes":
            if ps["ghost"] is None:
                raise I.broken("communication types of %s before its ghosts are known" % t.name)
            ps["types"] = ps["ghost"]
        else:
            if ps["types"] is None or ps["types"] is not ps["ghost"]:
                raise I.broken("%s is pulled without communication types of its ghosts" % t.name)
            ps["pulled"] = ps["types"]
            t.rows = t.all
        return None

    def fld(s, I, fr, n):
        if n["n"] == "pLGhostMapping":
            return LMap(s.t.row)
        if n["n"] == "pLGlobalMapping":
            if s.t.ps is not None and not s.t.ps["owners"]:
                raise I.broken("the owners' numbering of %s is used before it exists" % s.t.name)
            return GMap(s.t.row)
        if n["n"] == "father":
            return Side(s.t, 0, s.t.nf)
        if n["n"] == "son":
            return Side(s.t, s.t.nf, len(s.t.rows))
        return Obj.fld(s, I, fr, n)


def vname(I, q):
    """name of the variable a value consists of, None for anything else"""
    q = I.q(q)
    if isinstance(q, Q):
        s = str(q)
        if re.match(r"^[a-z]+\d*_\w+$", s):
            return s
    return None


class LMap(Obj):
    """mapping between global numbers and the appended numbering (owned, then ghost) of one kind of entity.
    Variables g_* are global numbers of entities this rank sees, u_* of entities it does not, l_* appended local numbers."""

    def __init__(s, k):
        s.k = k

    def meth(s, I, fr, n, nm, args):
        a = [I.ev(fr, x) for x in args]
        if nm in ("search_indexAppend", "search", "search_indexRank"):
            v = vname(I, a[0])
            if v is None or v[0] not in "gu":
                raise Undecided("lookup of %s" % (I.q(a[0]),))
            hit = v[0] == "g"
            loc = I.A.app("@%s_%s" % ({"search_indexAppend": "loc", "search": "locside", "search_indexRank": "locrank"}[nm], s.k), [I.q(a[0])])
            rk = I.A.app("@rank_%s" % s.k, [I.q(a[0])])
            if len(a) == 3:
                if hit:
                    I.assign(a[1], rk)
                    I.assign(a[2], loc)
                return hit
            return LV(I.cell(Seq_([I.store(hit), I.store(rk if hit else I.A.const(-1)), I.store(loc if hit else I.A.const(-1))])))
        if nm == "operator()":
            return s.idx(I, fr, n, a)
        return NotImplemented

    def idx(s, I, fr, n, a):
        r, y = I.q(a[0]), I.q(a[1])
        if not (isinstance(r, Q) and r.isconst()):
            raise Undecided("global number by position in a rank's ghosts")
        if r.constant() == -1:
            return I.A.app("@glob_%s" % s.k, [y])
        return I.A.app("@globr_%s" % s.k, [r, y])


class GMap(Obj):
    """owner mapping of one kind: g_* are owned by this rank (rank 1), u_* by another"""

    def __init__(s, k):
        s.k = k

    def meth(s, I, fr, n, nm, args):
        a = [I.ev(fr, x) for x in args]
        if nm == "search":
            v = vname(I, a[0])
            if v is None or v[0] not in "gu":
                raise Undecided("lookup of %s" % (I.q(a[0]),))
            rk = I.A.const(1 if v[0] == "g" else 3)
            loc = I.A.app("@own_%s" % s.k, [I.q(a[0])])
            if len(a) == 3:
                I.assign(a[1], rk)
                I.assign(a[2], loc)
                return True
            return LV(I.cell(Seq_([I.store(True), I.store(rk), I.store(loc)])))
        if nm == "operator()":
            return s.idx(I, fr, n, a)
        return NotImplemented

    def idx(s, I, fr, n, a):
        r, y = I.q(a[0]), I.q(a[1])
        if isinstance(r, Q) and r.isconst() and r.constant() == 1:
            return I.A.app("@ownglob_%s" % s.k, [y])
        return I.A.app("@ownglobr_%s" % s.k, [r, y])


class UMesh(Obj):
    def __init__(s, I, tabs, states, mpi):
        s.t, s.s, s.mpi = tabs, {k: I.store(I.A.const(v)) for k, v in states.items()}, mpi

    def fld(s, I, fr, n):
        m = n["n"]
        if m in s.t:
            return s.t[m]
        if m in s.s:
            return s.s[m]
        if m == "mpi":
            return s.mpi
        return Obj.fld(s, I, fr, n)

    def meth(s, I, fr, n, nm, args):
        return NotImplemented


class MpiObj(Obj):
    def fld(s, I, fr, n):
        if n["n"] == "rank":
            return I.A.const(1)
        if n["n"] == "size":
            return I.A.const(4)
        return Top("communicator")


def run(R, tier):
    R.rule("Abstract interpretation of the table conversions, the index mappings and the ghost set-up of the mesh on formal entries, offsets and ghost "
           "lists: each entry class (owned, ghost, unseen, none) in owned and ghost rows must name the same entity before and after; lookups and their "
           "inverses agree; constructed ghost lists hold each rank's entities at its place; the set-up steps are in order and over the same entities.")
    R.assume("tables hold a few rows per entry class and loops treat further rows of a class alike; MPI calls answer with formal values of the peers")
    P = eigen_types(Program([REPO + "/src/Geom/Mesh.cpp"]))
    st = next((dict(e["c"]) for q, e in P.enums.items() if q.endswith("::MeshAdjState")), None)
    if not st:
        raise AnalysisError("the adjacency states are not there any more")
    jobs = []
    for g in GROUPS:
        for to_local in (True, False):
            jobs.append((conversion, (P, g, to_local, st), "conversion of %s %s" % (g, "to local" if to_local else "to global")))
    for n in (1, 2, 3, 4):
        for lens in itertools.product((0, 1), repeat=n):
            jobs.append((offsets, (P, lens), "numbering of ranks with %s" % (lens,)))
    for b in ((), (1,), (2,), (0, 2), (1, 1), (2, 0)):
        for a in ((), (1,), (2, 1), (0, 1)):
            for mine in (True, False):
                jobs.append((ghosts, (P, b, a, mine), "ghost lookups with %s and %s" % (b, a)))
    for n, me, pull, peers in ((1, 0, [], [0]), (2, 0, [5, 4, 7, 4], [0, 2]), (3, 1, [9, 0, 3, 0, 11, 8], [1, 0, 2]), (3, 2, [1, 6, 2, 5, 1], [0, 0, 0]),
                               (4, 1, [13, 2, 5, 13, 8, 0], [2, 1, 0, 3]), (3, 0, [], [0, 1, 1])):
        jobs.append((constructed, (P, n, me, pull, peers), "pulling %s" % pull))
    for n, me, push, peers in ((2, 1, [[3, 0], [1]], [2, 1]), (3, 0, [[], [2, 2], [0]], [0, 1, 2])):
        jobs.append((pushed, (P, n, me, push, peers), "pushing %s" % push))
    for per in (True, False):
        jobs.append((ghost_setup, (P, st, per), "ghost set-up"))
    run_jobs(R, jobs)
    R.need("ghost_arrays", 18)
    R.need("conversions", 10)
    R.need("lookups", 200)
    R.need("constructed_mappings", 4)


# group, tables (with whether entries may be the no-entity mark, whether they may be out of this rank's sight, owner numbering)
GROUPS = {
    "Primary": ("adjPrimaryState", {"cell2cell": "mu", "bnd2cell": "mu", "cell2node": "", "bnd2node": ""}),
    "PrimaryForBnd": ("adjPrimaryState", {"cell2node": ""}),
    "Facial": ("adjFacialState", {"face2node": "", "face2cell": "m"}),
    "C2F": ("adjC2FState", {"cell2face": "mu"}),
    "N2CB": ("adjN2CBState", {"node2cell": "mu", "node2bnd": "muo"}),
}
STATES = ["adjPrimaryState", "adjFacialState", "adjC2FState", "adjN2CBState"]


def setup(P, group, to_local, st):
    A = Atoms()
    I = Interp(P, A)
    un = I.int(I.glob("DNDS::UnInitIndex"))
    tabs, want = {}, {}
    state, conv = GROUPS[group]
    for t in KIND:
        rows, w = [], []
        flags = conv.get(t)
        to = KIND[t][1:]
        for i in range(3):
            r, e = [], []
            ent = ["s"]
            if flags is not None:
                ent = ["s", "m" if "m" in flags else "s", "u" if "u" in flags else "s"]
                if t in ("face2cell", "bnd2cell"):
                    ent = [["s", "m"], ["s", "s"], ["s", "u" if "u" in flags else "m"]][i]
            for j, k in enumerate(ent):
                nm = "%s%d%d" % (t.lower().replace("2", ""), i, j)
                mk = lambda p: A.var(p + "_" + nm, positive=True)
                if flags is None:
                    v = x = mk("x")
                elif k == "m":
                    v = x = A.const(un)
                elif to_local:
                    v = mk("g" if k == "s" else "u")
                    own = "o" in flags
                    x = A.app("@%s_%s" % ("own" if own else "loc", to), [v]) if k == "s" else A.const(-1) - v
                else:
                    own = "o" in flags
                    if k == "s":
                        v = mk("l")
                        x = A.app("@%s_%s" % ("ownglob" if own else "glob", to), [v])
                    else:
                        x = mk("u")
                        v = A.const(-1) - x
                for p in "xgul":
                    I.ranges["%s_%s" % (p, nm)] = (0, 1) if p == "l" and flags and "o" in flags else (LO, HI)
                r.append(I.store(v))
                e.append(x)
            rows.append(r)
            w.append(e)
        tabs[t] = Tab(I, t, rows, 2)
        want[t] = w
    m = UMesh(I, tabs, dict({s: st["Adj_Unknown"] for s in STATES}, **{state: st["Adj_PointToGlobal" if to_local else "Adj_PointToLocal"]}), MpiObj())
    return I, m, want


def conversion(R, P, group, to_local, st):
    q = "%s::Adj%s%s" % (UM, "Global2Local" if to_local else "Local2Global", group)
    fs = [f for f in P.by_q.get(q, []) if not f.dep]
    if not fs:
        raise AnalysisError(q + " is not there any more")
    f = fs[0]
    I, m, want = setup(P, group, to_local, st)
    tag = "%s %s" % (group, "to local" if to_local else "to global")
    I.call(f, [], this=I.store(m))
    C = Cmp(R, None, tag, P.where(f, f.body))
    for t, w in want.items():
        got = [[I.q(x) for x in r] for r in m.t[t].rows]
        kd = KIND[t][1:]
        for i in range(3):
            side = "owned" if i < 2 else "ghost"
            R.count("entries", len(w[i]))
            C("conversion:%s:%s" % (q.rsplit("::", 1)[-1], t), got[i], w[i],
              "an %s row of %s does not end as %s" % (side, t, "it was" if t not in GROUPS[group][1] else
              "the %s numbers of the same %s entities" % ("local" if to_local else "global", NAME[kd])))
    s = GROUPS[group][0]
    for k in STATES:
        e = st["Adj_PointToLocal" if to_local else "Adj_PointToGlobal"] if k == s else st["Adj_Unknown"]
        C("state:%s" % q.rsplit("::", 1)[-1], [I.q(m.s[k])], [I.A.const(e)], "%s does not end as what the tables hold" % k)
    R.count("conversions")


def ghost_setup(R, P, st, periodic):
    """BuildGhostPrimary, BuildGhostN2CB: which entities become ghosts, over which arrays, in which order of steps"""
    A = Atoms()
    I = Interp(P, A)
    c = A.const
    tabs = {}
    for t in KIND:
        rows = []
        for i in range(3):
            nm = "%s%d" % (t.lower().replace("2", ""), i)
            r = [A.var("g_%s0" % nm, positive=True), A.var("u_%s1" % nm, positive=True), A.var("u_%s2" % nm, positive=True)]
            rows.append([I.store(x) for x in r])
        tabs[t] = Tab(I, t, rows, 2).follow()
    m = UMesh(I, tabs, dict({k: st["Adj_PointToGlobal"] for k in STATES}, isPeriodic=int(periodic)), MpiObj())
    f = method(P, UM + "::BuildGhostPrimary")
    this = I.store(m)
    I.call(f, [], this=this)
    tag = "periodic" if periodic else "not periodic"

    def seen(names, where, other, src, rows, txt):
        for t in names:
            ps = tabs[t].ps
            R.count("ghost_arrays")
            if ps["pulled"] is None or ps["pulled"] is not ps["ghost"]:
                R.viol("ghosts:%s" % t, where, "the ghosts of %s are not fetched [%s]" % (t, tag))
                continue
            got = {str(x) for x in ps["ghost"][1]}
            want = {str(I.q(x)) for r in (src.all[:rows] if src else []) for x in r if str(I.q(x)).startswith("u_")}
            if want - got:
                R.viol("ghosts:%s" % t, where, "%s do not become ghosts of %s: e.g. %s [%s]" % (txt, t, sorted(want - got)[0], tag))
            if any(x.startswith("g_") for x in got):
                R.viol("ghosts:%s" % t, where, "own entities become ghosts of %s [%s]" % (t, tag))
    seen(["cell2cell", "cell2node", "cellElemInfo"] + (["cell2nodePbi"] if periodic else []), f.loc(), None, tabs["cell2cell"], 2, "neighbours of owned cells")
    seen(["coords"], f.loc(), None, tabs["cell2node"], 3, "nodes of owned and ghost cells")
    seen(["bnd2cell", "bnd2node", "bndElemInfo"], f.loc(), None, None, 0, "boundaries")
    f = method(P, UM + "::BuildGhostN2CB")
    I.call(f, [], this=this)
    for t in ("node2cell", "node2bnd"):
        R.count("ghost_arrays")
        if tabs[t].ps["pulled"] is None or tabs[t].ps["ghost"] is not tabs["coords"].ps["ghost"]:
            R.viol("ghosts:%s" % t, f.loc(), "%s does not get the ghosts of the nodes" % t)


# ---------------------------------------------------------------- index mappings
GOM, OAM = "DNDS::GlobalOffsetsMapping", "DNDS::OffsetAscendIndexMapping"


def method(P, q, npar=None, pred=lambda f: True):
    fs = [f for f in P.by_q.get(q, []) if not f.dep and (npar is None or len(f.params) == npar) and pred(f)]
    if not fs:
        raise AnalysisError("%s is not there any more" % q)
    return fs[0]


def look(I, f, this, q, ranked):
    """outcome of a lookup: (found, rank, position)"""
    rk, val = I.store(I.A.const(-7)), I.store(I.A.const(-7))
    if len(f.params) == 1:
        r = I.rv(I.call(f, [q], this=this))
        if not isinstance(r, Seq_):
            raise Undecided("lookup returns no tuple")
        return [I.rv(x) for x in r.e]
    r = I.rv(I.call(f, [q, rk, val] if ranked else [q, val], this=this))
    return [r, I.q(rk), I.q(val)]


def lookups(R, I, C, P, rec, cls, names, query, want, desc):
    """want: name -> (found, rank or None, position)"""
    for nm in names:
        for f in [f for f in P.by_q.get("%s::%s" % (cls, nm), []) if not f.dep]:
            if nm in ("searchInMain",):
                got = look(I, f, rec, query, False)
            else:
                got = look(I, f, rec, query, True)
            w = want[nm]
            key = "lookup:%s::%s" % (cls.rsplit("::", 1)[-1], nm)
            R.count("lookups")
            t = I.truth(got[0])
            if not isinstance(t, bool):
                raise Undecided("%s: outcome not decided (%s)" % (nm, desc))
            if t != w[0]:
                R.viol(key, f.loc(), "%s %s an entity that %s (%s)" % (nm, "finds" if t else "does not find", "is not there" if t else "is there", desc))
                continue
            if t:
                g, e = [I.q(got[2])], [w[2]]
                if w[1] is not None:
                    g, e = g + [I.q(got[1])], e + [I.A.const(w[1])]
                C(key, g, e, "%s: position and rank of %s" % (nm, desc), where=f.loc())


def offsets(R, P, lens):
    """lens: per rank 0 (empty) or 1 (any positive number of entities)"""
    n = len(lens)
    A = Atoms()
    I = Interp(P, A)
    cut = {}
    L = []
    for r, z in enumerate(lens):
        # length = before + 1 + after a chosen entity
        k, d = A.var("k%d" % r, positive=True), A.var("d%d" % r, positive=True)
        L.append(k + d + A.const(1) if z else A.const(0))
        cut[r] = (k, d)
    off = [A.const(0)]
    for x in L:
        off.append(off[-1] + x)
    rec = I.store(Rec(GOM, {"RankLengths": Seq_(L), "RankOffsets": Seq_(off)}))
    C = Cmp(R, None, "ranks with %s entities" % (list(lens),), "")
    names = ["search"]
    for r, z in enumerate(lens):
        if not z:
            continue
        for k, txt in ((A.const(0), "first"), (cut[r][0], "inner"), (L[r] - A.const(1), "last")):
            lookups(R, I, C, P, rec, GOM, names, off[r] + k, {"search": (True, r, k)}, "the %s entity of rank %d" % (txt, r))
            f = method(P, GOM + "::operator()")
            C("offsets:operator()", [I.q(I.call(f, [A.const(r), k], this=rec))], [off[r] + k], "global number of an entity of a rank", where=f.loc())
    for q, t in ((A.const(-1), "a negative number"), (off[-1], "the number after the last"), (off[-1] + A.var("b", positive=True), "a number beyond the last")):
        lookups(R, I, C, P, rec, GOM, names, q, {"search": (False, None, None)}, t)
    f = method(P, GOM + "::globalSize")
    C("offsets:globalSize", [I.q(I.call(f, [], this=rec))], [off[-1]], "global number of entities", where=f.loc())
    # set-up from the lengths every rank announces
    f = method(P, GOM + "::setMPIAlignBcast")
    for me in range(n):
        def bcast(I, fr, nd, a):
            p, root = I.rv(a[0]), I.int(a[3])
            if not isinstance(p, Ptr) or not 0 <= p.o < len(p.e):
                raise Undecided("broadcast of something else")
            if root != me:
                I.assign(p.e[p.o], L[root])
            return None
        I.hooks["DNDS::MPI::Bcast"] = bcast
        rec = I.store(Rec(GOM, {"RankLengths": Seq_([]), "RankOffsets": Seq_([])}))
        I.call(f, [I.store(Rec("DNDS::MPIInfo", {"rank": A.const(me), "size": A.const(n), "comm": Top("comm")})), L[me]], this=rec)
        g = I.rv(rec)
        C("offsets:setMPIAlignBcast", [I.q(x) for x in I.rv(g.f["RankLengths"]).e], L, "lengths of the ranks", where=f.loc())
        C("offsets:setMPIAlignBcast", [I.q(x) for x in I.rv(g.f["RankOffsets"]).e], off, "offsets of the ranks", where=f.loc())
    R.count("numberings")


def ghosts(R, P, below, above, mine):
    """ghost entities of ranks before and after the owner (numbers of entities per rank) around a main range of any length"""
    A = Atoms()
    I = Interp(P, A)
    me = len(below)
    sizes = list(below) + [0] + list(above)
    o = A.var("o", positive=True)
    M = A.const(0)
    if mine:
        M = A.var("m1", positive=True) + A.var("m2", positive=True) + A.const(1)
    g, st = [], [0]
    nb = sum(below)
    tot = sum(sizes)
    # o counts from the last ghost below: numbers below are o0 + ..., strictly increasing
    cur = A.var("a", positive=True)
    between = []
    for i in range(nb):
        g.append(cur)
        between.append(cur + A.var("s%d" % i, positive=True))
        cur = cur + A.var("s%d" % i, positive=True) + A.const(1) + A.var("t%d" % i, positive=True)
    main = cur
    cur = main + M
    first_above = cur
    for i in range(nb, tot):
        g.append(cur + A.var("s%d" % i, positive=True))
        between.append(g[-1] + A.var("t%d" % i, positive=True))
        cur = g[-1] + A.var("t%d" % i, positive=True) + A.const(1)
    for s in sizes:
        st.append(st[-1] + s)
    c = A.const
    rec = I.store(Rec(OAM, {"mainOffset": main, "mainSize": M, "ghostSizes": Seq_([c(s) for s in sizes]), "ghostIndex": Seq_(g),
                            "ghostStart": Seq_([c(s) for s in st]), "pushIndexSizes": Seq_([]), "pushIndexStarts": Seq_([]),
                            "pushingIndexGlobal": Seq_([]), "pullingRequestLocal": Seq_([])}))
    C = Cmp(R, None, "ghosts of the ranks %s, %s" % (sizes, "any main range" if mine else "empty main range"), "")
    names = [x for x in ("searchInMain", "searchInAllGhost", "search", "search_indexAppend", "search_indexRank")]
    for x in names:
        method(P, OAM + "::" + x)
    glob = method(P, OAM + "::operator()")
    miss = (False, None, None)
    if mine:
        for k, txt in ((c(0), "first"), (A.var("m1"), "inner"), (M - c(1), "last")):
            w = {x: (True, -1, k) for x in names}
            w["searchInMain"] = (True, None, k)
            w["searchInAllGhost"] = miss
            lookups(R, I, C, P, rec, OAM, names, main + k, w, "the %s owned entity" % txt)
            C("inverse:operator()", [I.q(I.call(glob, [c(-1), k], this=rec))], [main + k], "global number of an owned entity", where=glob.loc())
    fg = method(P, OAM + "::searchInGhost")
    for i, x in enumerate(g):
        r = next(r for r in range(len(sizes)) if st[r] <= i < st[r + 1])
        w = {"searchInMain": miss, "searchInAllGhost": (True, r, c(i)), "search": (True, r, c(i)), "search_indexAppend": (True, r, M + c(i)),
             "search_indexRank": (True, r, c(i - st[r]))}
        lookups(R, I, C, P, rec, OAM, names, x, w, "ghost entity %d" % i)
        C("inverse:operator()", [I.q(I.call(glob, [c(-1), M + c(i)], this=rec))], [x], "global number of a ghost by its appended position", where=glob.loc())
        C("inverse:operator()", [I.q(I.call(glob, [c(r), c(i - st[r])], this=rec))], [x], "global number of a ghost by its rank and position", where=glob.loc())
        for r2 in range(len(sizes)):
            val = I.store(c(-7))
            ok = I.truth(I.rv(I.call(fg, [x, c(r2), val], this=rec)))
            R.count("lookups")
            if ok is not (r2 == r):
                R.viol("lookup:searchInGhost", fg.loc(), "searchInGhost %s an entity of rank %d among the ghosts of rank %d" % ("finds" if ok else "misses", r, r2))
            elif ok:
                C("lookup:searchInGhost", [I.q(val)], [c(i - st[r])], "position among the ghosts of a rank", where=fg.loc())
    for q, t in [(x, "a number between two ghosts") for x in between] + [(cur, "a number beyond all"), (first_above, "the number after the owned range")]:
        if q is first_above and len(g) > nb and False:
            continue
        lookups(R, I, C, P, rec, OAM, names, q, {x: miss for x in names}, t)
    if not nb:
        lookups(R, I, C, P, rec, OAM, names, main - c(1), {x: miss for x in names}, "the number before the owned range")
    R.count("ghost_layouts")


def same_seq(R, C, key, got, want, text):
    if len(got) != len(want):
        R.viol(key, C.where, "%s: %d entries where there are %d [%s]" % (text, len(got), len(want), C.tag))
        return
    C(key, got, want, text)


def constructed(R, P, n, me, pull, peers):
    """the pulling constructor: requests (any order, repeated) of rank me among n ranks of 4 entities each; peers: numbers others ask of us"""
    A = Atoms()
    I = Interp(P, A)
    c = A.const
    off = [4 * r for r in range(n + 1)]
    gm = I.store(Rec(GOM, {"RankLengths": Seq_([c(4)] * n), "RankOffsets": Seq_([c(x) for x in off])}))
    f = method(P, OAM + "::OffsetAscendIndexMapping", 5)
    rec = I.store(Rec(OAM, {k: Seq_([]) for k in ("ghostSizes", "ghostIndex", "ghostStart", "pushIndexSizes", "pushIndexStarts", "pushingIndexGlobal", "pullingRequestLocal")}))
    sent = []
    peer = [[A.var("ask%d_%d" % (r, i), positive=True) for i in range(k)] for r, k in enumerate(peers)]

    def a2a(I, fr, nd, a):
        s, d = I.rv(a[0]), I.rv(a[3])
        if not (isinstance(s, Ptr) and isinstance(d, Ptr)) or s.o + n > len(s.e) or d.o + n > len(d.e):
            raise Undecided("exchange of counts")
        sent.append([I.int(s.e[s.o + r]) for r in range(n)])
        for r in range(n):
            I.assign(d.e[d.o + r], c(peers[r]))
        return None

    def a2av(I, fr, nd, a):
        v = [I.rv(x) for x in a]
        s, sc, sd, d, dc, dd = v[0], v[1], v[2], v[4], v[5], v[6]
        if not all(isinstance(x, Ptr) for x in (s, sc, sd, d, dc, dd)):
            raise Undecided("exchange of requests")
        def at(p, i):
            if not 0 <= p.o + i < len(p.e):
                raise I.broken("an exchange reaches outside of its buffer")
            return p.e[p.o + i]
        out = []
        for r in range(n):
            k, o = I.int(at(sc, r)), I.int(at(sd, r))
            out.append([I.q(at(s, o + i)) for i in range(k)])
            k, o = I.int(at(dc, r)), I.int(at(dd, r))
            if k != peers[r]:
                raise I.broken("receives %d requests of rank %d, which sends %d" % (k, r, peers[r]))
            for i in range(k):
                I.assign(at(d, o + i), peer[r][i])
        sent.append(out)
        return None
    I.hooks["DNDS::MPI::Alltoall"] = a2a
    I.hooks["DNDS::MPI::Alltoallv"] = a2av
    mpi = I.store(Rec("DNDS::MPIInfo", {"rank": c(me), "size": c(n), "comm": Top("comm")}))
    I.call(f, [c(off[me]), c(4), I.store(Seq_([c(x) for x in pull])), gm, mpi], this=rec)
    g = I.rv(rec).f
    want = sorted(set(pull))
    per = [[x for x in want if off[r] <= x < off[r + 1]] for r in range(n)]
    pre = lambda v: [sum(v[:i]) for i in range(len(v) + 1)]
    C = Cmp(R, None, "requests %s of rank %d of %d" % (pull, me, n), f.loc())
    seq = lambda k: [I.q(x) for x in I.rv(g[k]).e]
    same_seq(R, C, "pull:ghostIndex", seq("ghostIndex"), [c(x) for x in want], "ghost numbers, ascending and once each")
    same_seq(R, C, "pull:ghostSizes", seq("ghostSizes"), [c(len(x)) for x in per], "ghosts per rank")
    same_seq(R, C, "pull:ghostStart", seq("ghostStart"), [c(x) for x in pre([len(x) for x in per])], "start of each rank's ghosts")
    same_seq(R, C, "pull:pushIndexSizes", seq("pushIndexSizes"), [c(x) for x in peers], "entities sent per rank")
    same_seq(R, C, "pull:pushIndexStarts", seq("pushIndexStarts"), [c(x) for x in pre(list(peers))], "start of what is sent per rank")
    same_seq(R, C, "pull:pushingIndexGlobal", seq("pushingIndexGlobal"), [x for r in peer for x in r], "entities sent")
    C("pull:main", [I.q(g["mainOffset"]), I.q(g["mainSize"])], [c(off[me]), c(4)], "owned range")
    if len(sent) == 2:
        C("pull:requests", [c(x) for x in sent[0]] + [x for r in sent[1] for x in r], [c(len(x)) for x in per] + [c(x) for r in per for x in r],
          "what is asked of each rank")
    R.count("constructed_mappings")


def pushed(R, P, n, me, push, peers):
    """the pushing constructor: local indices sent per rank; peers: numbers other ranks send"""
    A = Atoms()
    I = Interp(P, A)
    c = A.const
    off = [4 * r for r in range(n + 1)]
    gm = I.store(Rec(GOM, {"RankLengths": Seq_([c(4)] * n), "RankOffsets": Seq_([c(x) for x in off])}))
    fs = [f for f in P.by_q.get(OAM + "::OffsetAscendIndexMapping", []) if not f.dep and len(f.params) == 6]
    if not fs:
        raise AnalysisError("the pushing constructor is not there any more")
    f = fs[0]
    rec = I.store(Rec(OAM, {k: Seq_([]) for k in ("ghostSizes", "ghostIndex", "ghostStart", "pushIndexSizes", "pushIndexStarts", "pushingIndexGlobal", "pullingRequestLocal")}))
    peer = [[A.var("got%d_%d" % (r, i), positive=True) for i in range(k)] for r, k in enumerate(peers)]

    def a2a(I, fr, nd, a):
        d = I.rv(a[3])
        for r in range(n):
            I.assign(d.e[d.o + r], c(peers[r]))
        return None

    def a2av(I, fr, nd, a):
        v = [I.rv(x) for x in a]
        d, dc, dd = v[4], v[5], v[6]
        for r in range(n):
            k, o = I.int(dc.e[dc.o + r]), I.int(dd.e[dd.o + r])
            if k != peers[r]:
                raise I.broken("receives %d of rank %d, which sends %d" % (k, r, peers[r]))
            for i in range(k):
                I.assign(d.e[d.o + o + i], peer[r][i])
        return None
    I.hooks["DNDS::MPI::Alltoall"] = a2a
    I.hooks["DNDS::MPI::Alltoallv"] = a2av
    mpi = I.store(Rec("DNDS::MPIInfo", {"rank": c(me), "size": c(n), "comm": Top("comm")}))
    flat = [x for r in push for x in r]
    pre = lambda v: [sum(v[:i]) for i in range(len(v) + 1)]
    st = pre([len(r) for r in push])
    I.call(f, [c(off[me]), c(4), I.store(Seq_([c(x) for x in flat])), I.store(Seq_([c(x) for x in st])), gm, mpi], this=rec)
    g = I.rv(rec).f
    C = Cmp(R, None, "pushing %s from rank %d of %d" % (push, me, n), f.loc())
    seq = lambda k: [I.q(x) for x in I.rv(g[k]).e]
    same_seq(R, C, "push:pushIndexSizes", seq("pushIndexSizes"), [c(len(r)) for r in push], "entities sent per rank")
    same_seq(R, C, "push:pushIndexStarts", seq("pushIndexStarts"), [c(x) for x in st], "start of what is sent per rank")
    same_seq(R, C, "push:pushingIndexGlobal", seq("pushingIndexGlobal"), [c(off[me] + x) for x in flat], "global numbers sent")
    same_seq(R, C, "push:ghostSizes", seq("ghostSizes"), [c(x) for x in peers], "ghosts per rank")
    same_seq(R, C, "push:ghostStart", seq("ghostStart"), [c(x) for x in pre(list(peers))], "start of each rank's ghosts")
    same_seq(R, C, "push:ghostIndex", seq("ghostIndex"), [x for r in peer for x in r], "ghost numbers received")
    R.count("constructed_mappings")
