"""Load the type-checked program of /repo (dumped by extract/dndsx) for the analyzers."""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DNDSR_REPO", "/repo")
SRC = REPO + "/src"
CACHE = os.path.join(VERIF, ".cache")
sys.setrecursionlimit(20000)

FLAGS = ["-resource-dir=/usr/lib/llvm-18/lib/clang/18", "-DDNDS_USE_OMP", "-DDNDS_DIST_MT_USE_OMP", "-DNINSERT",
         "-D__DNDS_REALLY_COMPILING__", "-I" + VERIF + "/stubs", "-I/usr/include/superlu-dist",
         "-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
         "-I/usr/include/hdf5/openmpi", "-I/usr/include/eigen3", "-I/usr/include/argparse", "-I/opt/vp/cmake/none",
         "-I/opt/vp/cmake/pybind11/include", "-I/opt/vp/cmake/fmt/include", "-I" + SRC, "-I/usr/include/python3.12",
         "-std=c++17", "-fopenmp", "-w", "-Wno-c++11-narrowing"]

MODELS = ["NS", "NS_SA", "NS_2D", "NS_3D", "NS_SA_3D", "NS_2EQ", "NS_2EQ_3D"]
EULER_PARTS = ["EulerSolver", "EulerSolver_Init", "EulerSolver_PrintData", "EulerEvaluator",
               "EulerEvaluator_EvaluateDt", "EulerEvaluator_EvaluateRHS"]
DNDS_TUS = [SRC + "/DNDS/" + f for f in
            ["MPI.cpp", "Defines.cpp", "Profiling.cpp", "HardEigen.cpp", "SerializerH5.cpp", "SerializerJSON.cpp"]]
UNIT_TUS = [VERIF + "/units/containers.cpp"]
BIND_TUS = [SRC + "/DNDS/" + f for f in ["MPI_bind.cpp", "Array_bind.cpp", "ArrayDerived/ArrayAdjacency_bind.cpp"]]
GEOM_TUS = [SRC + "/Geom/" + f for f in
            ["Elements.cpp", "Mesh.cpp", "Mesh_Serial_BuildCell2Cell.cpp", "Mesh_Serial_ReadFromCGNS.cpp",
             "Mesh_Serial_Partition.cpp", "Mesh_Elevation.cpp", "Mesh_Elevation_SmoothSolver.cpp", "Mesh_Plts.cpp"]]
CFV_TUS = [SRC + "/CFV/VariationalReconstruction.cpp"] + \
          [SRC + "/CFV/_explicit_instantiation/VariationalReconstruction_%s_%s.cpp" % (a, b)
           for a in ("Reconstruction", "LimiterProcedure") for b in ("2_5", "3_7")]


def euler_tus(models, parts=EULER_PARTS):
    return [SRC + "/Euler/_explicit_instantiation/%s_%s.cpp" % (p, m) for m in models for p in parts]


QUICK_MODELS = ["NS", "NS_SA_3D", "NS_2EQ_3D"]


def default_models():
    return MODELS if os.environ.get("VERIF_TIER") == "thorough" else QUICK_MODELS


def all_tus(models=None):
    return euler_tus(models or default_models()) + CFV_TUS + GEOM_TUS + UNIT_TUS + DNDS_TUS


class AnalysisError(Exception):
    """The analysis cannot give an answer (vanished anchor, unparsable unit...): exit code 2."""


def ensure_tool():
    os.makedirs(CACHE, exist_ok=True)
    src = open(VERIF + "/extract/dndsx.cpp", "rb").read()
    exe = os.path.join(CACHE, "dndsx-" + hashlib.sha256(src).hexdigest()[:12])
    if not os.path.exists(exe):
        r = subprocess.run(["bash", VERIF + "/extract/build.sh", exe], capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisError("cannot build the extractor: " + r.stderr[-2000:])
    return exe


_hcache = {}


def _fhash(p):
    if p not in _hcache:
        try:
            _hcache[p] = hashlib.sha256(open(p, "rb").read()).digest()
        except OSError:
            _hcache[p] = b"-"
    return _hcache[p]


def _key(t, deps, base):
    h = hashlib.sha256(base + t.encode())
    for d in deps:
        h.update(d.encode() + b"\0" + _fhash(d))
    return h.hexdigest()[:20]


def overlay(t, tmp):
    """gcc accepts const (not constexpr) std::array tables in template arguments, clang does not: the unit that
    instantiates such templates sees the table header with those tables constexpr, same lines, same values"""
    env = dict(os.environ)
    h = os.path.join(SRC, "Geom/BaseFunction.hpp")
    if t.endswith("/units/algebra_base.cpp") and os.path.exists(h):
        with open(h, newline="") as f:
            txt = f.read()
        with open(tmp + ".ov", "w", newline="") as f:
            f.write(re.sub(r"static const std::array<int, ndiff \+ 1>", "static constexpr std::array<int, ndiff + 1>", txt))
        env["DNDSX_MAP"] = h + "=" + tmp + ".ov"
    return env


def extract(tus):
    """dump of every translation unit, reused only if every file it was made from is unchanged"""
    exe = ensure_tool()
    base = _fhash(VERIF + "/extract/dndsx.cpp") + " ".join(FLAGS).encode() + SRC.encode()
    d = os.path.join(CACHE, "tu")
    os.makedirs(d, exist_ok=True)
    now = time.time()
    for o in os.listdir(d):
        p = os.path.join(d, o)
        try:
            if now - os.path.getmtime(p) > 7200:
                os.unlink(p)
        except OSError:
            pass

    def one(t):
        nm = re.sub(r"[^A-Za-z0-9_.]", "_", t)
        if not os.path.exists(t):
            return t, None, "translation unit does not exist"
        for o in sorted(x for x in os.listdir(d) if x.startswith(nm + "@") and x.endswith(".deps")):
            try:
                deps = open(os.path.join(d, o)).read().split("\n")
            except OSError:
                continue
            out = os.path.join(d, nm + "@" + _key(t, deps, base) + ".json")
            if os.path.exists(out):
                for p in (out, out + ".bodies", out[:-5] + ".deps"):
                    try:
                        os.utime(p)
                    except OSError:
                        pass
                return t, out, ""
        tmp = os.path.join(d, "tmp%d_%s" % (os.getpid(), nm))
        r = subprocess.run([exe, tmp, t, SRC + ":" + VERIF + "/units", "--"] + FLAGS, env=overlay(t, tmp), capture_output=True, text=True)
        if os.path.exists(tmp + ".ov"):
            os.unlink(tmp + ".ov")
        if r.returncode != 0 or not os.path.exists(tmp):
            return t, None, "\n".join([l for l in r.stderr.splitlines() if " error: " in l][:3]) or r.stderr[-500:]
        deps = sorted({os.path.normpath(x) for x in open(tmp + ".deps").read().split("\n") if x} | {t})
        out = os.path.join(d, nm + "@" + _key(t, deps, base) + ".json")
        os.unlink(tmp + ".deps")
        with open(tmp + ".d", "w") as f:
            f.write("\n".join(deps))
        os.rename(tmp + ".bodies", out + ".bodies")
        os.rename(tmp, out)
        os.rename(tmp + ".d", out[:-5] + ".deps")
        return t, out, ""

    with ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        res = list(ex.map(one, tus))
    bad = [(t, e) for t, o, e in res if o is None]
    for t, e in bad:
        if t.startswith(VERIF):     # an instantiation unit of ours no longer fits the interface: analyse the rest
            print("NOTE: %s is left out: %s" % (t, e.split("\n")[0]))
    bad = [(t, e) for t, e in bad if not t.startswith(VERIF)]
    if bad:
        raise AnalysisError("cannot parse: " + "; ".join("%s: %s" % b for b in bad[:4]))
    return [o for _, o, _ in res if o]


class TU:
    pass


class Fn:
    __slots__ = ("tu", "idx", "key", "q", "name", "file", "line", "el", "params", "body", "inits", "info", "outer", "dep", "__dict__")

    def loc(self):
        return "%s:%d" % (self.file.replace(REPO + "/", ""), self.line)

    def __repr__(self):
        return "%s (%s)" % (self.q, self.loc())


class Program:
    def __init__(self, tus, want=None):
        """want: optional predicate(q, file) selecting functions whose bodies are loaded"""
        self.t0 = time.time()
        self.tus = []
        self.fns = {}
        self.by_q = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        for path in extract(tus):
            self._load(path, want)
        self._link()

    def _load(self, path, want):
        j = json.load(open(path))
        t = TU()
        t.path = path
        t.files = [os.path.normpath(f) if f else f for f in j["files"]]
        t.types = j["types"]
        t.fns = j["fns"]
        t.vars = j["vars"]
        self.tus.append(t)
        for f in t.fns:
            if f and f.get("repo"):
                f["_file"] = t.files[f["file"]]
        for r in j["records"]:
            r["_tu"] = t
            r["_file"] = t.files[r["file"]]
            ty = t.types[r["t"]] if r["t"] >= 0 else r["q"] + "<dep>"
            self.records.setdefault(ty, r)
        for e in j["enums"]:
            e["_file"] = t.files[e["file"]]
            self.enums.setdefault(e["q"], e)
        for g in j["globals"]:
            g["_tu"] = t
            g["_file"] = t.files[g["file"]]
            if g["q"] not in self.globals or not self.globals[g["q"]]["d"].get("init") and g["d"].get("init"):
                self.globals[g["q"]] = g
        rx = re.compile(r'\{"id":(\d+),')
        seen = set()
        with open(path + ".bodies") as fh:
            for ln in fh:
                i = int(rx.match(ln).group(1))
                info = t.fns[i]
                key = info.get("key")
                if key is None or key in self.fns:
                    continue
                if want and not want(info["q"], info["_file"]):
                    continue
                b = json.loads(ln)
                f = Fn()
                f.tu, f.idx, f.key, f.q = t, i, key, info["q"]
                f.name = f.q.rsplit("::", 1)[-1]
                f.file, f.line, f.el = info["_file"], info["line"], b["el"]
                f.params, f.body, f.inits = b["params"], b["body"], b.get("inits", [])
                f.info = info
                f.dep = bool(b.get("dep"))
                m = re.search(r"^(.*) >L\d+:\d+[^>]*$", key)
                f.outer = m.group(1) if m and info.get("lambda") else None
                self.fns[key] = f
                self.by_q.setdefault(f.q, []).append(f)

    def _link(self):
        self.overriders = {}
        seen = set()
        for t in self.tus:
            for f in t.fns:
                if f and f.get("ov"):
                    for o in f["ov"]:
                        b = t.fns[o]
                        if b and b.get("key"):
                            self.overriders.setdefault(b["key"], set()).add(f["key"])
        # transitive
        ch = True
        while ch:
            ch = False
            for k, v in self.overriders.items():
                for x in list(v):
                    for y in self.overriders.get(x, ()):
                        if y not in v:
                            v.add(y)
                            ch = True

    # -- node helpers (need the TU of the enclosing function)
    def info(self, fn, node):
        i = node.get("fn")
        return fn.tu.fns[i] if i is not None else None

    def callee_q(self, fn, node):
        i = self.info(fn, node)
        return i["q"] if i else None

    def targets(self, fn, node):
        """possible repo callee Fns of a call node (virtual overriders included)"""
        i = self.info(fn, node)
        if node.get("mk") is not None:
            k = fn.tu.fns[node["mk"]].get("key")
            return [self.fns[k]] if k in self.fns else []
        if not i or not i.get("key"):
            return []
        keys = [i["key"]]
        if i.get("virt") and not node.get("nonvirt"):
            keys += sorted(self.overriders.get(i["key"], ()))
        return [self.fns[k] for k in keys if k in self.fns]

    def type(self, fn, node):
        if node is None:
            return ""
        if node["k"] == "Ref":
            v = fn.tu.vars[node["id"]]
            return fn.tu.types[v["t"]]
        t = node.get("t", -1)
        return fn.tu.types[t] if t is not None and t >= 0 else ""

    def var(self, fn, vid):
        return fn.tu.vars[vid]

    def file_of(self, fn, node):
        return fn.tu.files[node["f"]] if "f" in node else fn.file

    def where(self, fn, node):
        return "%s:%d" % (self.file_of(fn, node).replace(REPO + "/", ""), node.get("l", 0))

    def fn_by_q(self, q, required=True):
        r = self.by_q.get(q, [])
        if not r and required:
            raise AnalysisError("anchor vanished: no definition of " + q)
        return r


CHILD_KEYS = ("init", "var", "cond", "inc", "range", "then", "else", "body", "e", "b", "i", "a", "ce", "sz", "val", "hi")


def kids(n):
    """direct child nodes in evaluation-ish order"""
    k = n["k"]
    if k == "Cond":
        for x in ("c", "a", "b"):
            if n.get(x):
                yield n[x]
        return
    if k in ("Asg", "Bin"):
        yield n["a"]
        yield n["b"]
        return
    if k in ("Decl", "RFor"):
        if k == "RFor" and n.get("range"):
            yield n["range"]
        for v in n["vars"]:
            if v.get("init"):
                yield v["init"]
        for r in n.get("reds", ()):
            yield r
        if k == "RFor" and n.get("body"):
            yield n["body"]
        return
    if k == "DeclRed":
        for x in ("comb", "initz", "privinit"):
            if n.get(x):
                yield n[x]
        return
    if k == "Lam":
        for c in n["caps"]:
            if c.get("init"):
                yield c["init"]
        return
    if k == "For":
        for x in ("init", "cond", "body", "inc"):
            if n.get(x):
                yield n[x]
        return
    if k == "Do":
        for x in ("body", "cond"):
            if n.get(x):
                yield n[x]
        return
    for x in CHILD_KEYS:
        v = n.get(x)
        if isinstance(v, dict):
            yield v
    for x in ("args", "c", "h"):
        v = n.get(x)
        if isinstance(v, list):
            for y in v:
                if isinstance(y, dict):
                    yield y
    if k == "OMP":
        for c in n.get("cl", ()):
            for y in c.get("v", ()):
                if isinstance(y, dict):
                    yield y


def walk(n):
    if n is None:
        return
    st = [n]
    while st:
        x = st.pop()
        yield x
        st.extend(reversed(list(kids(x))))


def strip(n):
    """strip casts and copy/move construction, std::move/forward"""
    while n:
        k = n["k"]
        if k in ("ICast", "Cast"):
            n = n["e"]
        elif k == "Con" and (n.get("copy") or n.get("move")) and len(n["args"]) == 1:
            n = n["args"][0]
        else:
            return n
    return n
