"""Rank-variance (SPMD divergence) analysis.

Every value carries a set of dependency tokens: "L" (may differ between ranks) or an int i
(depends on parameter i of the current function).  Branch conditions push their tokens on the
control context; a communication operation reached under a context holding "L" is executed by
some ranks only.  Interprocedural via function summaries."""
from prog import *
from callgraph import CallGraph, CALLS

EMPTY = frozenset()
L = frozenset(["L"])      # data that differs between ranks
DIV = frozenset(["L", "C"])   # "C": written / reached under a rank-dependent decision


def ctl(d):
    """control dependency produced by a condition with dependencies d"""
    if d & DIV:
        return (d - DIV) | {"C"}
    return d


# ---- trusted facts about the MPI / HDF5 / CGNS API (name -> index of recv buffer made uniform, or None)
SANITIZE = {"MPI_Allreduce": [1], "MPI_Iallreduce": [1], "MPI_Bcast": [0], "MPI_Ibcast": [0], "MPI_Allgather": [3],
            "MPI_Iallgather": [3], "MPI_Allgatherv": [3], "MPI_Iallgatherv": [3]}
COLL_PRIM = set(SANITIZE) | {
    "MPI_Barrier", "MPI_Ibarrier", "MPI_Alltoall", "MPI_Ialltoall", "MPI_Alltoallv", "MPI_Ialltoallv", "MPI_Alltoallw",
    "MPI_Scan", "MPI_Iscan", "MPI_Exscan", "MPI_Reduce", "MPI_Ireduce", "MPI_Gather", "MPI_Gatherv", "MPI_Scatter", "MPI_Scatterv",
    "MPI_Reduce_scatter", "MPI_Comm_dup", "MPI_Comm_free", "MPI_Comm_split", "MPI_Comm_create", "MPI_Finalize", "MPI_Init_thread",
    "MPI_File_open", "MPI_File_close", "MPI_File_write_all", "MPI_File_read_all",
    "H5Fcreate", "H5Fopen", "H5Fclose", "H5Gcreate2", "H5Dcreate2", "H5Acreate2", "H5Awrite", "H5Dwrite", "H5Dread",
    "H5Dset_extent", "H5Ldelete", "H5Adelete",
    "cgp_open", "cgp_close", "cgp_coord_write", "cgp_coord_write_data", "cgp_poly_section_write",
    "cgp_poly_elements_write_data", "cgp_ptlist_write_data"}
# neighbourhood exchanges every rank has to take part in
COLL_REPO = ("startPersistentPull", "waitPersistentPull", "startPersistentPush", "waitPersistentPush",
             "initPersistentPull", "initPersistentPush", "pullOnce", "pushOnce", "clearPersistentPull__no",
             )
LOCAL_FIELDS = {"DNDS::MPIInfo::rank", "DNDS::Array::_data", "DNDS::Array::_dataUncompressed", "DNDS::Array::_size",
                "DNDS::Array::_pRowStart", "DNDS::Array::_pRowSizes",
                "DNDS::OffsetAscendIndexMapping::ghostIndex", "DNDS::OffsetAscendIndexMapping::ghostSizes",
                "DNDS::OffsetAscendIndexMapping::ghostStart", "DNDS::OffsetAscendIndexMapping::pushIndexSizes",
                "DNDS::OffsetAscendIndexMapping::pushingIndexGlobal", "DNDS::OffsetAscendIndexMapping::mainOffset",
                "DNDS::OffsetAscendIndexMapping::mainSize"}
# arguments of a collective that must be the same on every rank
UNIFORM_ARGS = {"MPI_Allreduce": [(2, "count"), (4, "operation")], "MPI_Iallreduce": [(2, "count"), (4, "operation")],
                "MPI_Bcast": [(1, "count"), (3, "root")], "MPI_Ibcast": [(1, "count"), (3, "root")],
                "MPI_Scan": [(2, "count"), (4, "operation")], "MPI_Iscan": [(2, "count"), (4, "operation")],
                "MPI_Reduce": [(2, "count"), (4, "operation"), (5, "root")],
                "MPI_Allgather": [(1, "count"), (4, "count")], "MPI_Iallgather": [(1, "count"), (4, "count")],
                "MPI_Alltoall": [(1, "count"), (4, "count")], "MPI_Ialltoall": [(1, "count"), (4, "count")]}
LOCAL_CALLS = {"MPI_Wtime", "std::chrono::_V2::system_clock::now", "std::chrono::_V2::steady_clock::now",
               "std::chrono::high_resolution_clock::now", "std::random_device::operator()", "clock", "time"}
# fields that hold the same value on every rank by construction of the running program (trusted, reported)
UNIFORM_FIELDS = {"DNDS::MPIInfo::comm", "DNDS::MPIInfo::size",
                  # offsets of every rank, broadcast by each owner
                  "DNDS::GlobalOffsetsMapping::RankOffsets", "DNDS::GlobalOffsetsMapping::RankLengths",
                  # array shape parameters, communication strategy switches
                  "DNDS::Array::_row_size_dynamic", "DNDS::ArrayEigenMatrix::_mat_nRow_dynamic",
                  # mesh-wide flags (set from input read by the root and shared, or from the restart file)
                  "DNDS::Geom::UnstructuredMesh::isPeriodic",
                  # boundary integrals are reduced over all ranks before the lift driver reads them
                  "DNDS::Euler::IntegrationRecorder::v", "DNDS::Euler::IntegrationRecorder::div",
                  "DNDS::Euler::EulerEvaluator::bndIntegrations"}
UNIFORM_PREFIX = ("DNDS::Serializer::Serializer", "DNDS::MPI::CommStrategy::", "DNDS::Serializer::ArrayGlobalOffset::",
                  "DNDS::Geom::Periodicity::", "DNDS::ObjectPool::")
NORET_MACRO = ("DNDS_assert", "DNDS_assert_info", "DNDS_check_throw", "DNDS_check_throw_info", "DNDS_assert_infof")


def shape(n):
    """structural text of an expression (no positions)"""
    n = strip(n)
    if n is None:
        return ""
    t = n["k"] + str(n.get("op", "")) + str(n.get("id", "")) + str(n.get("q", n.get("n", ""))) + str(n.get("v", "")) + str(n.get("fn", ""))
    return t + "(" + ",".join(shape(c) for c in kids(n)) + ")"


class Summary:
    __slots__ = ("ret", "out", "eff", "oblig", "coll")

    def __init__(self):
        self.ret = EMPTY
        self.out = {}      # param idx -> deps at exit
        self.eff = {}      # path -> deps at exit  (fields, captured variables)
        self.oblig = {}    # param idx -> (site description)
        self.coll = False

    def key(self):
        return (self.ret, tuple(sorted(self.out.items(), key=lambda x: x[0])), tuple(sorted((str(k), tuple(sorted(map(str, v)))) for k, v in self.eff.items())),
                tuple(sorted(self.oblig)), self.coll)


class Spmd:
    def __init__(self, P, G=None, collectives_only=False):
        self.P = P
        self.G = G or CallGraph(P)
        self.glob = {}            # path -> deps(only L or empty) joined over all exits
        self.sum = {}
        self.viol = {}
        self.sites = {}           # communication call sites -> (fn, guards)
        self.local_fields = set(LOCAL_FIELDS)
        self.why = {}
        self.uargs = set()
        self._ft = {}
        for r in P.records.values():
            for f in r["fields"]:
                self._ft.setdefault(r["q"] + "::" + f["n"], r["_tu"].types[f["t"]])
        self._struct = {}
        self._captured()
        self._coll()
        self.run()

    def ftype(self, q):
        return self._ft.get(q)

    def structural(self, ty):
        """types that carry no value of their own (their content lives in tracked fields)"""
        r = self._struct.get(ty)
        if r is None:
            t = ty.replace("const ", "").rstrip("&* ").strip()
            while True:
                m = re.match(r"^std::(shared_ptr|unique_ptr|__shared_ptr)<(.*)>$", t)
                if not m:
                    break
                t = m.group(2).replace("const ", "").strip()
            r = t.startswith("DNDS::") and t.split("<")[0] not in ("DNDS::CFV::RecAtr__",) and not self.is_enum(t)
            if "(lambda" in t and t.startswith("("):
                r = True
            if t.startswith("std::function<") or t.startswith("std::mutex") or t.startswith("std::basic_ofstream") or t.startswith("std::basic_ostream"):
                r = True
            self._struct[ty] = r
        return r

    def is_enum(self, t):
        return t in self.P.enums or any(t == e["q"] for e in self.P.enums.values())

    # which functions (transitively) communicate
    def _coll(self):
        P, G = self.P, self.G
        callers = {}
        base = set()
        self.prim_of = {}
        for fn in P.fns.values():
            if fn.dep:
                continue
            if fn.name in COLL_REPO and "ArrayTransformer" in fn.q:
                base.add(fn.key)
                self.prim_of[fn.key] = fn.q
            if fn.info.get("noret"):
                continue          # abort handlers: the job ends here
            for n in self.walk_nostatic(fn.body):
                if n["k"] in CALLS:
                    q = P.callee_q(fn, n)
                    if q in COLL_PRIM:
                        base.add(fn.key)
                        self.prim_of.setdefault(fn.key, q)
                    for t, _ in G.call(fn, n):
                        callers.setdefault(t.key, set()).add(fn.key)
        work = list(base)
        seen = set(base)
        while work:
            k = work.pop()
            for c in callers.get(k, ()):
                if c not in seen:
                    seen.add(c)
                    self.prim_of.setdefault(c, self.prim_of.get(k))
                    work.append(c)
        self.collfns = seen
        self._onlyif = {}
        self.callers = callers

    def only_if(self, f, depth=0):
        """parameters of f that must be true for f to communicate"""
        r = self._onlyif.get(f.key)
        if r is not None or depth > 4:
            return r or frozenset()
        self._onlyif[f.key] = frozenset()
        pidx = {v: i for i, v in enumerate(f.params)}
        acc = None

        def pos(c):
            c = strip(c)
            if c is None:
                return frozenset()
            if c["k"] == "Ref" and c["id"] in pidx:
                return frozenset([pidx[c["id"]]])
            if c["k"] == "Bin" and c["op"] == "&&":
                return pos(c["a"]) | pos(c["b"])
            return frozenset()
        sites = []

        def go(n, g):
            if n is None:
                return
            if n["k"] == "If" and not n.get("cx"):
                go(n["cond"], g)
                go(n.get("then"), g | pos(n["cond"]))
                go(n.get("else"), g)
                return
            if n["k"] in CALLS:
                q = self.P.callee_q(f, n)
                ts = [t for t, _ in self.G.call(f, n) if t.key in self.collfns]
                if q in COLL_PRIM:
                    sites.append(g)
                elif ts:
                    for t in ts:
                        need = self.only_if(t, depth + 1)
                        extra = frozenset()
                        dead = False
                        args = next(a for t2, a in self.G.call(f, n) if t2 is t)
                        for i in need:
                            if i < len(args):
                                a = strip(args[i])
                                if self.is_false(a):
                                    dead = True
                                extra |= pos(a)
                        if not dead:
                            sites.append(g | extra)
            for c in kids(n):
                go(c, g)
        go(f.body, frozenset())
        if f.key in self.prim_of and f.name in COLL_REPO:
            sites.append(frozenset())
        for s in sites:
            acc = s if acc is None else acc & s
        self._onlyif[f.key] = acc or frozenset()
        return self._onlyif[f.key]

    @staticmethod
    def is_false(a):
        return a is not None and (a["k"] == "Bool" and not a.get("v") or a["k"] == "Int" and str(a.get("v")) == "0")

    @staticmethod
    def walk_nostatic(n):
        """walk, without the initialisers of function-local statics (run once, on first use)"""
        if n is None:
            return
        st = [n]
        while st:
            x = st.pop()
            yield x
            if x["k"] == "Decl" and any(v.get("static") for v in x["vars"]):
                continue
            st.extend(kids(x))

    def _captured(self):
        self.cap = set()
        for fn in self.P.fns.values():
            for n in walk(fn.body):
                if n["k"] == "Lam":
                    for c in n["caps"]:
                        if "id" in c:
                            self.cap.add((id(fn.tu), c["id"]))

    def run(self):
        fns = [f for f in self.P.fns.values() if not f.dep]
        # order: callees first (rough: by DFS)
        order = []
        state = {}
        G = self.G
        callees = {}
        for f in fns:
            s = []
            for n in walk(f.body):
                if n["k"] in CALLS:
                    s += [t for t, _ in G.call(f, n)]
                elif n["k"] == "Lam":
                    for i in n["fns"]:
                        k = f.tu.fns[i].get("key")
                        if k in self.P.fns:
                            s.append(self.P.fns[k])
            callees[f.key] = s
        for f in fns:
            if f.key in state:
                continue
            st = [(f, iter(callees[f.key]))]
            state[f.key] = 1
            while st:
                g, it = st[-1]
                for c in it:
                    if c.key not in state and not c.dep:
                        state[c.key] = 1
                        st.append((c, iter(callees[c.key])))
                        break
                else:
                    order.append(g)
                    st.pop()
        self.order = order
        for rnd in range(8):
            self.viol = {}
            self.sites = {}
            changed = False
            for f in order:
                a = FnAnalysis(self, f)
                s = a.analyse()
                old = self.sum.get(f.key)
                if old is None or old.key() != s.key():
                    changed = True
                self.sum[f.key] = s
                for p, d in s.eff.items():
                    if "L" in d and not self.glob.get(p):
                        self.glob[p] = (f, True)
                        changed = True
            self.rounds = rnd + 1
            if not changed:
                break

    def report(self, fn, node, what, deps, guards):
        key = (self.P.where(fn, node), what)
        if key not in self.viol:
            self.viol[key] = (fn, node, guards)


class FnAnalysis:
    def __init__(self, S, fn):
        self.S, self.fn, self.P = S, fn, S.P
        self.pidx = {v: i for i, v in enumerate(fn.params)}
        self.alias = {}
        self.state = {}
        self.ret = EMPTY
        self.oblig = {}
        self.retpc = EMPTY     # control taint due to early returns
        self.guards = []       # textual stack
        self.mod = set()
        self.corr = {}

    # ---- paths
    def path(self, n):
        """(path, strong) of an lvalue expression"""
        n = strip(n)
        if n is None:
            return None, False
        k = n["k"]
        if k == "Ref":
            return self.vpath(n["id"]), True
        if k == "Mem":
            if n.get("fn") is not None:
                return None, False
            if not n["q"].startswith("DNDS") or "()::" in n["q"]:
                p, s = self.path(n["b"])
                return p, False
            return ("F", n["q"]), True
        if k == "Idx":
            p, s = self.path(n["b"])
            return p, False
        if k == "Un":
            if n["op"] in ("*", "&"):
                return self.path(n["e"])
            return self.path(n["e"])
        if k == "MCall" and n.get("b"):
            p, s = self.path(n["b"])
            q = self.P.callee_q(self.fn, n) or ""
            return p, q.endswith("::data") or q.endswith("::begin") or q.endswith("::get")
        if k == "OpCall" and n["args"]:
            p, s = self.path(n["args"][0])
            return p, s and n["op"] in ("*", "->")
        if k == "Cond":
            p, s = self.path(n["a"])
            return p, False
        if k == "Asg":
            return self.path(n["a"])
        if k == "Bin" and n["op"] in ("+", "-"):
            p, s = self.path(n["a"])
            return p, False
        return None, False

    def vpath(self, vid):
        v = self.fn.tu.vars[vid]
        if v["k"] == "binding" and "of" in v:
            return self.vpath(v["of"])
        a = self.alias.get(vid)
        if a is not None:
            return a
        if v["k"] in ("global", "smember"):
            return ("G", v.get("q"))
        return ("V", id(self.fn.tu), vid)

    def get(self, p):
        if p is None:
            return EMPTY
        s = self.state.get(p)
        if s is not None:
            return s
        if p[0] == "F" and p[1] in self.S.local_fields:
            return L
        if p[0] == "F" and p[1].startswith("DNDS::Euler::IntegrationRecorder::") and self.fn.q.startswith("DNDS::Euler::IntegrationRecorder::") \
                and p[1].rsplit("::", 1)[-1] in ("v", "div"):
            return L            # the recorder's own methods see the rank's part, its users the reduced one
        if p[0] == "F" and (p[1] in UNIFORM_FIELDS or p[1].startswith(UNIFORM_PREFIX)):
            return EMPTY
        if p[0] == "V" and p[1] == id(self.fn.tu) and p[2] in self.pidx:
            ty = self.vtype(p)
            if ty is not None and self.S.structural(ty):
                return EMPTY
            return frozenset([self.pidx[p[2]]])
        return L if self.S.glob.get(p) else EMPTY

    def vtype(self, p):
        """type string of a path (None when unknown)"""
        if p[0] == "V":
            for t in (self.fn.tu,):
                if id(t) == p[1]:
                    return t.types[t.vars[p[2]]["t"]]
            return None
        if p[0] == "F":
            return self.S.ftype(p[1])
        return None

    def put(self, p, d, strong, usepc=True):
        if p is None:
            return
        if strong and p[0] == "V":
            self.state.pop(("Z",) + p, None)
        if p[0] == "F" and (p[1] in UNIFORM_FIELDS or p[1].startswith(UNIFORM_PREFIX)):
            return
        if p[0] == "G" and p[1] and p[1].startswith("ompi_"):
            return
        ty = self.vtype(p)
        if ty is not None and self.S.structural(ty):
            return
        if usepc and "C" in self.pc and not (d & DIV):
            self.S.why.setdefault(p, (self.fn, self.cur, "control", [(c, f) for dd, c, f in self.guards if dd & DIV]))
        if d & DIV:
            self.S.why.setdefault(p, (self.fn, self.cur, "data", None))
        if usepc:
            d = d | self.pc
        if not strong:
            d = d | self.get(p)
        self.state[p] = d
        self.mod.add(p)

    # ---- container sizes are tracked apart from the contents
    def zget(self, base):
        ty = self.P.type(self.fn, strip(base) or base) or self.P.type(self.fn, base)
        if "Eigen::" in ty.split("<")[0] or ty.startswith("const Eigen") or ty.startswith("std::array"):
            return EMPTY       # shape of a dense vector/matrix: fixed by the model
        p, s = self.path(base)
        if p is not None and s and p[0] == "V" and ("Z",) + p in self.state:
            return self.state[("Z",) + p]
        return None

    def zput(self, base, d, strong):
        p, s = self.path(base)
        if p is None or p[0] != "V" or not s:
            return
        z = ("Z",) + p
        d = d | self.pc
        if not strong:
            if z not in self.state:
                return
            d = d | self.state[z]
        self.state[z] = d

    # ---- expressions
    def ev(self, n):
        if n is None:
            return EMPTY
        k = n["k"]
        if k in ("Asg", "OpCall", "MCall", "Call"):
            self.cur = n
        m = getattr(self, "e_" + k, None)
        if m:
            return m(n)
        d = EMPTY
        for c in kids(n):
            d = d | self.ev(c)
        return d

    def e_Ref(self, n):
        v = self.fn.tu.vars[n["id"]]
        if v["k"] == "enum" or "v" in n:
            return EMPTY
        return self.get(self.vpath(n["id"]))

    def e_Mem(self, n):
        if n.get("fn") is not None:
            return self.ev(n["b"])
        if n["q"].startswith("DNDS") and "()::" not in n["q"]:
            return self.get(("F", n["q"]))
        return self.ev(n["b"])

    def e_This(self, n):
        return EMPTY

    def e_Lam(self, n):
        for c in n["caps"]:
            if c.get("init"):
                self.put(self.vpath(c["id"]), self.ev(c["init"]), True)
        return EMPTY

    def e_Asg(self, n):
        d = self.ev(n["b"])
        p, strong = self.path(n["a"])
        if n["op"] != "=":
            d = d | self.ev(n["a"])
        else:
            d = d | self._idxdeps(n["a"])
        self.put(p, d, strong and n["op"] == "=")
        return d

    def _idxdeps(self, n):
        """taint of the index part of an lvalue"""
        n = strip(n)
        d = EMPTY
        while n is not None:
            k = n["k"]
            if k == "Idx":
                d = d | self.ev(n["i"])
                n = strip(n["b"])
            elif k == "OpCall":
                for a in n["args"][1:]:
                    d = d | self.ev(a)
                n = strip(n["args"][0]) if n["args"] else None
            elif k == "MCall":
                for a in n["args"]:
                    d = d | self.ev(a)
                n = strip(n.get("b"))
            else:
                break
        return d

    def e_Un(self, n):
        d = self.ev(n["e"])
        if n["op"] in ("++", "--", "p++", "p--"):
            p, s = self.path(n["e"])
            self.put(p, d, False)
        return d

    def e_Bin(self, n):
        if n["op"] in ("==", "!=") and any((strip(n[x]) or {}).get("k") == "NullP" for x in "ab"):
            self.ev(n["a"])
            self.ev(n["b"])
            return EMPTY       # pointer validity is allocation structure, not data
        a = self.ev(n["a"])
        if n["op"] in ("&&", "||"):
            sa = strip(n["a"])
            with_guard = self.push(a, n["a"])
            b = self.ev(n["b"])
            self.pop(with_guard)
            return a | b
        return a | self.ev(n["b"])

    def e_Cond(self, n):
        if n.get("m") in NORET_MACRO:
            c = self.ev(n["c"])
            return EMPTY
        c = self.ev(n["c"])
        g = self.push(c, n["c"])
        a = self.ev(n["a"])
        b = self.ev(n["b"])
        self.pop(g)
        return a | b | c

    def e_Con(self, n):
        return self.call(n)

    def e_Call(self, n):
        return self.call(n)

    def e_MCall(self, n):
        return self.call(n)

    def e_OpCall(self, n):
        op = n["op"]
        i = self.P.info(self.fn, n)
        if op in ("=", "+=", "-=", "*=", "/=", "<<", ">>", "|=", "&=") and len(n["args"]) == 2 and not (i and i.get("repo") and self.S.G.call(self.fn, n)):
            a, b = n["args"]
            if op == "<<" and not self._lhs_is_eigen(a):
                return self.ev(a) | self.ev(b)  # stream output
            d = self.ev(b)
            p, s = self.path(a)
            if op == ">>":
                d2 = self.ev(a)
                p, s = self.path(b)
                self.put(p, d2, False)
                return d2
            if op != "=":
                d = d | self.ev(a)
            else:
                d = d | self._idxdeps(a)
            self.put(p, d, s and op == "=")
            return d
        return self.call(n)

    def _lhs_is_eigen(self, a):
        return "Eigen" in self.P.type(self.fn, strip(a) or a)

    def e_New(self, n):
        d = EMPTY
        for c in kids(n):
            d = d | self.ev(c)
        return d

    # pointer validity is allocation structure, not data
    def _is_ptr_bool(self, n):
        return False

    def call(self, n):
        P, S, fn = self.P, self.S, self.fn
        info = P.info(fn, n)
        q = info["q"] if info else ""
        tg = S.G.call(fn, n)
        nm = q.rsplit("::", 1)[-1] if q else ""
        if q.startswith("std::shared_ptr::operator conv") or q.startswith("std::__shared_ptr::operator conv") or q.startswith("std::unique_ptr::operator conv") or \
                (nm == "operator conv" and ("shared_ptr" in q or "unique_ptr" in q or "function" in q)):
            # allocated / not allocated: evaluate for side effects only
            if n.get("b"):
                self.ev(n["b"])
            return EMPTY
        if nm in ("operator==", "operator!=") and len(n["args"]) == 2 and any((strip(a) or {}).get("k") == "NullP" for a in n["args"]):
            for a in n["args"]:
                self.ev(a)
            return EMPTY
        if q in ("std::get",) and n["args"]:
            return self.ev(n["args"][0])
        args = n.get("args", [])
        base = n.get("b") if n["k"] == "MCall" else None
        if base is not None and nm in ("size", "empty", "rows", "cols") and not info.get("repo"):
            z = self.zget(base)
            if z is not None:
                return z
        adeps = [self.ev(a) for a in args]
        bdep = self.ev(base) if base is not None else EMPTY
        if n["k"] == "Call" and n.get("ce"):
            bdep = bdep | self.ev(n["ce"])
        # ---- communication?
        if q in COLL_PRIM:
            self.comm(n, q)
            for i, role in UNIFORM_ARGS.get(q, ()):
                if i < len(adeps):
                    S.uargs.add((P.where(fn, n), i))
                    if adeps[i] & DIV:
                        S.report(fn, n, "the %s passed to %s differs between ranks" % (role, q), adeps[i], list(self.guards))
                    for x in adeps[i]:
                        if x not in DIV:
                            self.oblig.setdefault(x, "the %s of %s at %s" % (role, q, P.where(fn, n)))
        elif any(t.key in S.collfns for t, _ in tg):
            live = [t for t, ta in tg if t.key in S.collfns and not any(i < len(ta) and S.is_false(strip(ta[i])) for i in S.only_if(t))]
            if live:
                self.comm(n, q or "callback", live)
        if q in SANITIZE:
            for i in SANITIZE[q]:
                if i < len(args):
                    p, s = self.path(args[i])
                    if p is not None:
                        self.state[p] = self.pc
                        self.mod.add(p)
            return EMPTY
        if q == "MPI_Comm_rank":
            p, s = self.path(args[1])
            self.put(p, L, True)
            return EMPTY
        if q == "MPI_Comm_size":
            p, s = self.path(args[1])
            self.put(p, EMPTY, True)
            return EMPTY
        if q in LOCAL_CALLS:
            return L
        if q.startswith("H5") or q.startswith("cg_") or q.startswith("cgp_"):
            return EMPTY      # file metadata is the same on every rank
        if tg:
            ret = EMPTY
            first = True
            outs = {}
            effs = {}
            for t, targs in tg:
                s = S.sum.get(t.key)
                # positional alignment of deps
                off = len(args) - len(targs)
                td = adeps[off:] if targs else []
                if s is None:
                    for d in adeps:
                        ret = ret | d
                    continue

                def sub(ds):
                    r = set()
                    for x in ds:
                        if x in DIV:
                            r.add(x)
                        elif x < len(td):
                            r |= td[x]
                    return frozenset(r)
                ret = ret | sub(s.ret)
                for i, d in s.out.items():
                    if i < len(td):
                        outs.setdefault(i + off, set()).update(sub(d))
                for p, d in s.eff.items():
                    effs.setdefault(p, set()).update(sub(d))
                for i, site in s.oblig.items():
                    if i < len(td):
                        d = td[i]
                        if d & DIV:
                            S.report(fn, n, "argument %d of %s differs between ranks and decides %s" % (i, t.q, site), d, list(self.guards))
                        for x in d:
                            if x not in DIV:
                                self.oblig.setdefault(x, site)
            strongall = len(tg) == 1
            for i, d in outs.items():
                p, s = self.path(args[i])
                if p is not None:
                    self.put(p, frozenset(d), s and strongall)
            for p, d in effs.items():
                if p[0] == "F" and p[1] in S.local_fields:
                    continue
                if p[0] == "F" and not (d and "L" in d) and not strongall:
                    continue
                self.put(p, frozenset(x for x in d if x != "C") if p[0] == "F" else frozenset(d), strongall, False)
            # constructors: object holds everything it was given
            if n["k"] == "Con":
                for d in adeps:
                    ret = ret | d
            rt = P.type(fn, n)
            if rt and S.structural(rt):
                return EMPTY
            return ret
        # ---- external function
        tot = bdep
        for d in adeps:
            tot = tot | d
        if n["k"] == "MCall" and info and not info.get("const") and base is not None:
            if nm in ("clear", "reset") :
                p, s = self.path(base)
                self.zput(base, EMPTY, True)
                self.put(p, EMPTY, s)
            elif nm in ("resize", "push_back", "emplace_back", "insert", "emplace", "assign", "reserve", "swap", "setZero", "setConstant",
                        "erase", "pop_back", "append", "resizeLike", "push_front", "push", "pop", "merge", "setOnes", "setIdentity", "fill", "open", "close", "setRandom", "try_emplace", "merge_patch"):
                p, s = self.path(base)
                da = EMPTY
                for d in adeps:
                    da = da | d
                if nm in ("resize", "assign"):
                    self.zput(base, adeps[0] if adeps else EMPTY, True)
                    if nm == "resize":
                        da = adeps[1] if len(adeps) > 1 else EMPTY
                elif nm in ("push_back", "emplace_back", "append"):
                    self.zput(base, EMPTY, False)
                elif nm not in ("reserve", "setZero", "setConstant", "setOnes", "setIdentity", "fill"):
                    self.zput(base, da, False)
                self.put(p, da, s and nm in ("assign", "setZero", "setConstant", "setOnes", "setIdentity", "fill") and False)
                for a in args:
                    if nm == "swap":
                        pa, sa = self.path(a)
                        self.put(pa, tot, False)
        if info and nm in ("swap", "getline", "exchange", "sscanf", "fread", "read", "memcpy", "copy", "fill", "iota", "to_json", "from_json", "get_to"):
            for a, t in zip(args, info.get("pt", [])):
                ty = fn.tu.types[t]
                if (ty.endswith("&") or ty.endswith("*")) and "const" not in ty.split("<")[0]:
                    p, s = self.path(a)
                    if p is not None:
                        self.put(p, tot, False)
        return tot

    nocomm = False

    def comm(self, n, q, targets=()):
        S = self.S
        if self.nocomm:
            return
        where = self.P.where(self.fn, n)
        S.sites.setdefault((where, q), (self.fn, n))
        if "C" in self.pc:
            S.report(self.fn, n, "%s" % q + ((" -> " + (S.prim_of.get(targets[0].key) or "")) if targets else ""), self.pc, list(self.guards))
        for x in self.pc:
            if x not in DIV:
                self.oblig.setdefault(x, "whether %s at %s is reached" % (q, where))

    # ---- control
    def push(self, deps, cond):
        old = self.pc
        deps = ctl(deps)
        self.pc = self.pc | deps
        self.guards.append((deps, cond, self.fn))
        return old

    def pop(self, old):
        self.pc = old
        self.guards.pop()

    cur = None

    def stmt(self, n):
        """returns set of (kind, deps) abrupt exits: kinds 'ret','brk','cont'"""
        if n is None:
            return {}
        k = n["k"]
        if k == "Seq":
            ex = {}
            saved = self.pc
            ng = 0
            for c in n["c"]:
                if c is None:
                    continue
                e = self.stmt(c)
                for kind, (d, g) in e.items():
                    if kind in ex:
                        ex[kind] = (ex[kind][0] | d, ex[kind][1])
                    else:
                        ex[kind] = (d, g)
                    d = ctl(d)
                    if d - self.pc:
                        self.pc = self.pc | d
                        self.guards.append((d, g, self.fn))
                        ng += 1
            self.pc = saved
            if ng:
                del self.guards[-ng:]
            return ex
        if k == "If":
            if n.get("init"):
                self.stmt(n["init"])
            if n.get("var"):
                self.stmt(n["var"])
            c = self.ev(n["cond"]) if not n.get("cx") else EMPTY
            bal = c & DIV and n.get("else") and self.balanced(n["then"], n["else"])
            g = self.push(c if not bal else c - DIV, n["cond"])
            st0 = dict(self.state)
            sh = shape(n["cond"]) if n.get("cond") else None
            for p, (clean, joined) in self.corr.get(sh, {}).items():
                if self.state.get(p) == joined:
                    self.state[p] = clean      # same condition as the one it was reduced under
            e1 = self.stmt(n.get("then"))
            st1 = self.state
            self.state = dict(st0)
            e2 = self.stmt(n.get("else"))
            self.pop(g)
            st2 = self.state
            self.state = self.join(st1, st2)
            if not (c & DIV) and not n.get("else"):
                for p, d in st1.items():
                    if not (d & DIV) and st2.get(p, EMPTY) & DIV:
                        self.corr.setdefault(sh, {})[p] = (d, self.state[p])
            ex = {}
            for e in (e1, e2):
                for kind, (d, gg) in e.items():
                    dd = d | c
                    ex[kind] = (ex[kind][0] | dd, ex[kind][1]) if kind in ex else (dd, n["cond"] if c else gg)
            # both arms leave the same way: not divergent
            if e1 and e2 and set(e1) == set(e2) and len(e1) == 1 and self.always(n.get("then")) and self.always(n.get("else")):
                kind = next(iter(e1))
                ex[kind] = (e1[kind][0] | e2[kind][0] if False else (ex[kind][0] - c) | EMPTY, ex[kind][1])
            return ex
        if k in ("For", "While", "Do", "RFor"):
            return self.loop(n)
        if k == "Switch":
            c = self.ev(n["cond"])
            g = self.push(c, n["cond"])
            st0 = dict(self.state)
            ex = self.stmt(n["body"])
            self.pop(g)
            self.state = self.join(st0, self.state)
            ex.pop("brk", None)
            return {kk: (d | c, gg) for kk, (d, gg) in ex.items()}
        if k in ("Case", "Default"):
            return self.stmt(n.get("body"))
        if k == "Return":
            if n.get("e"):
                e = strip(n["e"])
                d = self.ev(n["e"])
                self.ret = self.ret | d | self.pc
            return {"ret": (EMPTY, None)}
        if k == "Break":
            return {"brk": (EMPTY, None)}
        if k == "Continue":
            return {"cont": (EMPTY, None)}
        if k == "Decl":
            for v in n["vars"]:
                if v.get("static") and v.get("init") is not None:
                    # initialised once per process
                    pc0, self.pc = self.pc, EMPTY
                    nog, self.nocomm = self.nocomm, True
                    d = self.ev(v["init"])
                    self.pc, self.nocomm = pc0, nog
                    self.state[("V", id(self.fn.tu), v["id"])] = d
                elif v.get("init") is not None:
                    ty = self.fn.tu.types[v["t"]]
                    if ty.endswith("&") and not v.get("binds"):
                        ini = strip(v["init"])
                        p, s = self.path(ini)
                        d = self.ev(v["init"])
                        if p is not None and s and ini["k"] in ("Ref", "Mem", "Un", "OpCall"):
                            self.alias[v["id"]] = p
                            continue
                        self.state[("V", id(self.fn.tu), v["id"])] = d | self.pc
                        continue
                    d = self.ev(v["init"])
                    pp = ("V", id(self.fn.tu), v["id"])
                    self.state.pop(pp, None)
                    self.cur = n
                    self.put(pp, d, True)
                    self.state.pop(("Z",) + pp, None)
                    ini = strip(v["init"])
                    if ini is not None and ini["k"] == "Con" and "std::vector" in self.fn.tu.types[v["t"]][:18]:
                        a = ini["args"]
                        if not a:
                            self.state[("Z",) + pp] = self.pc
                        elif self.P.type(self.fn, strip(a[0]) or a[0]) in ("int", "unsigned long", "long", "unsigned int") or (strip(a[0]) or {}).get("k") == "Int":
                            self.state[("Z",) + pp] = self.ev(a[0]) | self.pc
                else:
                    # a fresh object has no value yet
                    self.state[("V", id(self.fn.tu), v["id"])] = EMPTY
                    self.state[("Z", "V", id(self.fn.tu), v["id"])] = self.pc
            return {}
        if k == "Try":
            ex = self.stmt(n["body"])
            for h in n.get("h", ()):
                st0 = dict(self.state)
                e = self.stmt(h)
                self.state = self.join(st0, self.state)
                for kk, v in e.items():
                    ex.setdefault(kk, v)
            return ex
        if k == "OMP":
            return self.stmt(n.get("body"))
        if k == "Null":
            return {}
        self.ev(n)
        return {}

    def balanced(self, a, b):
        """both arms run the same, non-empty, straight sequence of communication calls"""
        def seq(x):
            r = []
            for n in walk(x):
                if n["k"] in CALLS:
                    q = self.P.callee_q(self.fn, n)
                    if q in COLL_PRIM:
                        r.append((q, shape(n["args"][-2]) if len(n["args"]) > 1 else None))
                    else:
                        ks = sorted(t.key for t, _ in self.S.G.call(self.fn, n) if t.key in self.S.collfns)
                        if ks:
                            r.append((tuple(ks),))
                elif n["k"] in ("If", "For", "While", "Do", "Switch", "Return", "RFor"):
                    return None
            return r
        x = seq(a)
        return bool(x) and x == seq(b)

    def always(self, n):
        if n is None:
            return False
        if n["k"] in ("Return", "Break", "Continue"):
            return True
        if n["k"] == "Seq":
            return any(c is not None and self.always(c) for c in n["c"])
        if n["k"] == "If":
            return self.always(n.get("then")) and self.always(n.get("else"))
        return False

    def join(self, a, b):
        r = dict(a)
        for p in [x for x in r if x[0] == "Z" and x not in b]:
            del r[p]
        for p, d in b.items():
            if p in r:
                r[p] = r[p] | d
            elif p[0] == "Z":
                continue
            else:
                # only written on one path
                tmp = self.state
                self.state = a
                r[p] = d | (self.get(p) if p[0] != "V" or p[2] in self.pidx or (p[1], p[2]) in self.S.cap else EMPTY)
                self.state = tmp
        for p in a:
            if p[0] != "Z" and p not in b and (p[0] != "V" or p[2] in self.pidx or (p[1], p[2]) in self.S.cap):
                tmp = self.state
                self.state = b
                r[p] = r[p] | self.get(p)
                self.state = tmp
        return r

    def loop(self, n):
        k = n["k"]
        extra = EMPTY
        if k == "For" and n.get("init"):
            self.stmt(n["init"])
        rd = EMPTY
        if k == "RFor":
            rd = self.ev(n["range"])
        ex = {}
        for it in range(6):
            st0 = dict(self.state)
            if k == "RFor":
                c = rd
                for v in n["vars"]:
                    ty = self.fn.tu.types[v["t"]]
                    p, s = self.path(n["range"])
                    if ty.endswith("&") and p is not None:
                        self.alias[v["id"]] = p
                    else:
                        self.state[("V", id(self.fn.tu), v["id"])] = rd | self.pc
                cn = n["range"]
            elif k == "Do":
                c = EMPTY
                cn = n["cond"]
            else:
                if n.get("var"):
                    self.stmt(n["var"])
                c = self.ev(n["cond"]) if n.get("cond") else EMPTY
                cn = n.get("cond")
            g = self.push(c | extra, cn or n)
            e = self.stmt(n.get("body"))
            if k == "For" and n.get("inc"):
                self.ev(n["inc"])
            if k == "Do":
                c = self.ev(n["cond"])
            self.pop(g)
            newx = extra | c if k == "Do" else extra
            for kind in ("brk", "ret"):
                if kind in e:
                    newx = newx | e[kind][0]
            self.state = self.join(st0, self.state)
            stable = newx == extra and self.state == st0
            for kind, v in e.items():
                ex[kind] = (ex[kind][0] | v[0], ex[kind][1] or v[1]) if kind in ex else v
            extra = newx
            if stable:
                break
        r = {}
        if "ret" in ex:
            r["ret"] = (ex["ret"][0] | (c if k != "Do" else EMPTY), ex["ret"][1] or n.get("cond"))
        return r

    def analyse(self):
        fn = self.fn
        self.pc = EMPTY
        for it in fn.inits:
            d = self.ev(it.get("e"))
            if it.get("q", "").startswith("DNDS"):
                self.put(("F", it["q"]), d, True)
        self.stmt(fn.body)
        s = Summary()
        s.ret = self.ret
        s.oblig = self.oblig
        s.coll = fn.key in self.S.collfns
        for i, vid in enumerate(fn.params):
            p = ("V", id(fn.tu), vid)
            if p in self.mod:
                ty = fn.tu.types[fn.tu.vars[vid]["t"]]
                if ty.endswith("&") or ty.endswith("*") or "shared_ptr" in ty:
                    s.out[i] = self.state.get(p, EMPTY)
        for p in self.mod:
            if p[0] == "F" or (p[0] == "V" and p[2] not in self.pidx and (p[1], p[2]) in self.S.cap) or p[0] == "G":
                if p[0] == "F" and p[1] in self.S.local_fields:
                    continue
                s.eff[p] = self.state.get(p, EMPTY)
        return s
