"""Algebraic abstract interpretation of C++ functions over the extracted syntax trees.

Values are exact rational functions (alg.py), matrices / arrays / records of them, booleans and
symbolic conditions, function objects, or TOP. Control flow on a known value is followed (conditional
constant propagation); on an unknown condition both branches are analysed and the stores are joined
with gated phi atoms, so the result covers every execution. Anything the domain cannot express
becomes TOP; a loop whose bound is not known, or a call depth overflow, raises Undecided."""
from prog import *
from alg import *
import math


class Undecided(Exception):
    pass


class Broken(Undecided):
    """the code itself is wrong on this path, which every execution with these arguments takes"""

    def __init__(self, text, where):
        Undecided.__init__(self, text)
        self.text, self.where = text, where


# what an obligation that the analysis cannot express may raise
SOFT = (Undecided, KeyError, AttributeError, IndexError, TypeError, ZeroDivisionError)


class Top:
    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "TOP(%s)" % self.why


class LV:
    """scalar or whole-object lvalue: one heap cell"""
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c


REFLIKE = re.compile(r"(?:const )?Eigen::(?:Map|Block|VectorBlock|IndexedView|Reshaped)<")


class View:
    """r x c matrix of cells (column index fastest in `ids`: ids[i*c+j])"""
    __slots__ = ("r", "c", "ids", "arr", "vw")

    def __init__(self, r, c, ids, arr=False, vw=None):
        self.r, self.c, self.ids, self.arr, self.vw = r, c, tuple(ids), arr, vw


class Mat:
    """matrix rvalue"""
    __slots__ = ("r", "c", "v", "arr", "vw")

    def __init__(self, r, c, v, arr=False, vw=None):
        self.r, self.c, self.v, self.arr, self.vw = r, c, list(v), arr, vw


class Seq_:
    """ordered container value: tuple of element storages"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)


class Ptr:
    __slots__ = ("e", "o")

    def __init__(self, e, o):
        self.e, self.o = tuple(e), o


class Rec:
    __slots__ = ("t", "f")

    def __init__(self, t, f):
        self.t, self.f = t, f


class Clo:
    def __init__(self, fns, frame, fn):
        self.fns, self.frame, self.fn = fns, frame, fn


class SeqIdx:
    def __init__(self, a, b, s=1):
        self.a, self.b, self.s = a, b, s


class CommaInit:
    def __init__(self, lv):
        self.lv, self.pos = lv, 0


class Obj:
    """object of the abstract environment (mesh, array, settings...): answers indexing, methods and fields itself;
    NotImplemented from meth = analyse the member function's own code on this object"""

    def idx(self, I, fr, n, args):
        raise Undecided("index of %s" % type(self).__name__)

    def meth(self, I, fr, n, nm, args):
        return NotImplemented

    def fld(self, I, fr, n):
        raise Undecided("field %s of %s" % (n["n"], type(self).__name__))

    def items(self, I):
        raise Undecided("elements of %s" % type(self).__name__)


ALL = "Eigen::all"
LAST = "Eigen::last"


def rowmajor(t):
    """storage order of a dense Eigen type"""
    m = re.search(r"Eigen::(?:Matrix|Array)<[^<>]*?, (-?\d+), (-?\d+), (\d+)", t or "")
    return bool(m and int(m.group(3)) & 1)


class SetV(Obj):
    """a set of known integers; the order of a walk over it is not specified by the program (order: +1 or -1 for two of them)"""
    order = 1

    def __init__(self):
        self.s = set()

    def items(self, I):
        return [I.store(I.A.const(x)) for x in sorted(self.s)[::SetV.order]]

    def meth(self, I, fr, n, nm, args):
        if nm in ("insert", "emplace", "erase", "clear") and I.known:
            raise Undecided("a set changed under an undetermined condition")
        if nm in ("insert", "emplace", "count", "contains", "erase") and len(args) == 1:
            x = I.int(I.ev(fr, args[0]))
            if nm in ("count", "contains"):
                return I.A.const(int(x in self.s))
            (self.s.add if nm != "erase" else self.s.discard)(x)
            return None
        if nm in ("size", "empty"):
            return I.A.const(len(self.s)) if nm == "size" else not self.s
        if nm == "clear":
            self.s.clear()
            return None
        if nm == "reserve":
            return None
        return NotImplemented


class BMat(Obj):
    """comparison of an array: one condition per entry"""

    def __init__(self, c):
        self.c = c

    def meth(self, I, fr, n, nm, args):
        if nm in ("all", "any"):
            if all(isinstance(x, bool) for x in self.c):
                return all(self.c) if nm == "all" else any(self.c)
            if (False if nm == "all" else True) in [x for x in self.c if isinstance(x, bool)]:
                return nm == "any"
            return Cnd("?", Top("condition on an array"))
        return NotImplemented


class Cnd:
    """symbolic condition: sign test of a value (op in > >= == !=) against 0, or an opaque boolean"""

    def __init__(self, op, q, neg=False):
        self.op, self.q, self.neg = op, q, neg

    def __str__(self):
        return ("!" if self.neg else "") + "(%s %s 0)" % (self.q, self.op)


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class Frame:
    def __init__(self, fn, this=None, parent=None):
        self.fn, self.this, self.parent = fn, this, parent
        self.env = {}
        self.pending = []

    def find(self, i):
        f = self
        while f is not None:
            if i in f.env:
                return f.env[i]
            f = f.parent
        return None


INT_T = re.compile(r"^(const )?(unsigned |signed )?(int|long|short|char|bool|long long|unsigned|size_t)\b")


class Interp:
    def __init__(self, P, A=None, small=True):
        self.P = P
        self.A = A or Atoms()
        self.heap = {}
        self.nc = 0
        self.depth = 0
        self.known = []          # assumed conditions on the current path: (Cnd, bool)
        self.small = small       # treat verySmallReal-like regularisations as 0
        self.generic = None      # decides conditions by general position, where the caller may assume it
        self.gcache = {}
        self.ranges = {}         # variable name -> (lo, hi) assumed
        self.at = None
        self.hooks = {}          # qualified name -> callable(interp, frame, node, args) -> value
        self.calls = 0
        self.forks = 0
        self.notes = []

    # ------------------------------------------------------------ storage
    def cell(self, v):
        self.nc += 1
        self.heap[self.nc] = v
        return self.nc

    def store(self, v):
        """fresh storage holding a copy of value v"""
        v = self.rv(v)
        if isinstance(v, Mat):
            ids = [self.cell(x) for x in v.v]
            return LV(self.cell(View(v.r, v.c, ids, v.arr)))
        if isinstance(v, View):
            return LV(self.cell(View(v.r, v.c, [self.cell(self.heap[i]) for i in v.ids], v.arr)))
        if isinstance(v, Seq_):
            return LV(self.cell(Seq_([self.store(x) for x in v.e])))
        if isinstance(v, Rec):
            return LV(self.cell(Rec(v.t, {k: self.store(x) for k, x in v.f.items()})))
        return LV(self.cell(v))

    def rv(self, v):
        while isinstance(v, LV):
            v = self.heap[v.c]
        return v

    def q(self, v):
        v = self.rv(v)
        if isinstance(v, bool):
            return self.A.const(int(v))
        if isinstance(v, int):
            return self.A.const(v)
        if isinstance(v, View) and v.r == 1 and v.c == 1:
            return self.q(self.heap[v.ids[0]])
        if isinstance(v, Mat) and v.r == 1 and v.c == 1:
            return v.v[0]
        if isinstance(v, Cnd):
            return self.phi(v, self.A.const(1), self.A.const(0))
        return v

    def mat(self, v):
        v = self.rv(v)
        if isinstance(v, View):
            return Mat(v.r, v.c, [self.q(self.heap[i]) for i in v.ids], v.arr, v.vw)
        if isinstance(v, Mat):
            return v
        if isinstance(v, Q):
            return Mat(1, 1, [v])
        return v

    def int(self, v):
        v = self.q(v)
        if isinstance(v, Q) and v.isconst() and v.constant().denominator == 1:
            return int(v.constant())
        raise Undecided("index is not a known integer: %s" % (v,))

    def assign(self, lv, v):
        tgt = lv
        cur = self.heap.get(lv.c) if isinstance(lv, LV) else lv
        v = self.rv(v)
        if isinstance(v, CommaInit):
            v = self.rv(v.lv)
        if isinstance(cur, LV):
            return self.assign(cur, v)
        if isinstance(cur, View):
            if isinstance(v, Top):
                for i in cur.ids:
                    self.heap[i] = v
                return
            m = self.mat(v)
            if not isinstance(m, Mat):
                raise Undecided("matrix assigned from %r" % (v,))
            if cur.vw:
                # colwise() = vector / rowwise() = row vector
                for i in range(cur.r):
                    for j in range(cur.c):
                        self.heap[cur.ids[i * cur.c + j]] = m.v[i] if cur.vw == "col" else m.v[j]
                return
            if (m.r, m.c) != (cur.r, cur.c):
                if (m.c, m.r) == (cur.r, cur.c) and 1 in (m.r, m.c):
                    pass
                elif isinstance(lv, LV):
                    ids = [self.cell(x) for x in m.v]
                    self.heap[lv.c] = View(m.r, m.c, ids, cur.arr)
                    return
                else:
                    raise self.broken("shape mismatch %dx%d = %dx%d" % (cur.r, cur.c, m.r, m.c))
            vals = list(m.v)
            for i, x in zip(cur.ids, vals):
                self.heap[i] = x
            return
        if isinstance(lv, LV):
            if isinstance(v, (Mat, View, Seq_, Rec)):
                if isinstance(cur, Rec) and isinstance(v, Rec):
                    for k, x in v.f.items():
                        if k in cur.f:
                            self.assign(cur.f[k], x)
                    return
                self.heap[lv.c] = self.heap[self.store(v).c]
            else:
                self.heap[lv.c] = v
            return
        if isinstance(lv, View):
            return
        raise Undecided("assignment to %r" % (tgt,))

    # ------------------------------------------------------------ conditions
    def cnd(self, op, a, b):
        a, b = self.q(a), self.q(b)
        if not isinstance(a, Q) or not isinstance(b, Q):
            if op in ("==", "!=") and not isinstance(a, Top) and not isinstance(b, Top) and type(a) is type(b) and isinstance(a, (str,)):
                return (a == b) == (op == "==")
            return Cnd("?", a)
        d = a - b
        if op in ("<", "<="):
            d, op = -d, {"<": ">", "<=": ">="}[op]
        s = d.sign()
        if s is None and self.ranges:
            lo, hi = self.interval(d)
            s = 1 if lo is not None and lo > 0 else -1 if hi is not None and hi < 0 else None
        if s is not None:
            return {">": s > 0, ">=": s >= 0, "==": s == 0, "!=": s != 0}[op]
        c = Cnd(op, d)
        for k, val in self.known:
            r = self.implied(k, val, c)
            if r is not None:
                return r
        return c

    def interval(self, q):
        """bounds of a value from the declared ranges of the variables (None: unbounded)"""
        def mul(a, b):
            if None in a or None in b:
                return (None, None)
            p = [x * y for x in a for y in b]
            return (min(p), max(p))

        def atom(i):
            if self.A.name[i] in self.ranges:
                return self.ranges[self.A.name[i]]
            if self.A.kind[i] == "abs":
                lo, hi = self.interval(self.A.args[i][0])
                if lo is None or hi is None:
                    return (None, None)
                if lo >= 0:
                    return (lo, hi)
                if hi <= 0:
                    return (-hi, -lo)
                return (0, max(-lo, hi))
            return (None, None)

        def poly(p):
            r = (0, 0)
            for m, c in p.items():
                t = (c, c)
                for a, e in m:
                    x = atom(a)
                    for _ in range(e):
                        t = mul(t, x)
                    if e % 2 == 0 and None not in t and len(m) == 1:
                        pass
                if None in t:
                    return (None, None)
                r = (r[0] + t[0], r[1] + t[1])
            return r
        if q.d:
            return (None, None)
        return poly(q.n)

    @staticmethod
    def same_cnd(a, b):
        """True if equal, False if negation, None otherwise"""
        if a.op == "?" or b.op == "?":
            return (a.neg == b.neg) if a is b or (a.op == b.op and a.q is b.q) else None
        for sg in (1, -1):
            if (a.q - b.q * sg).iszero():
                if a.op == b.op and (sg == 1 or a.op in ("==", "!=")):
                    return a.neg == b.neg
                if {a.op, b.op} == {"==", "!="}:
                    return a.neg != b.neg
                if sg == -1 and {a.op, b.op} == {">", ">="}:
                    return a.neg != b.neg
        return None

    def implied(self, k, val, c):
        s = self.same_cnd(k, c)
        if s is None:
            return None
        return val if s else not val

    def truth(self, v):
        v = self.rv(v)
        if isinstance(v, bool):
            return v
        if isinstance(v, Cnd):
            for k, val in self.known:
                r = self.implied(k, val, v)
                if r is not None:
                    return r
            if self.generic:
                r = self.generic(v)
                if r is not None:
                    return r
            return v
        if isinstance(v, Q):
            if v.isconst():
                return v.constant() != 0
            s = v.sign()
            if s is not None:
                return s != 0
            return self.truth(Cnd("!=", v))
        if isinstance(v, Ptr):
            return v.e is not None
        return Cnd("?", v)

    def phi(self, c, a, b):
        if a is b:
            return a
        a2, b2 = self.q(a), self.q(b)
        if isinstance(a2, Q) and isinstance(b2, Q):
            if (a2 - b2).iszero():
                return a2
            if c.neg:
                c, a2, b2 = Cnd(c.op, c.q), b2, a2
            if c.op == "?":
                return Top("phi on an unknown condition")
            if c.op == ">=":
                c, a2, b2 = Cnd(">", -c.q), b2, a2
            if c.op == "!=":
                c, a2, b2 = Cnd("==", c.q), b2, a2
            pos = a2.sign() == 1 and b2.sign() == 1
            return self.A.app("phi" + c.op, [c.q, a2, b2], positive=pos)
        if isinstance(a, Top):
            return Top("join with " + a.why)
        if isinstance(b, Top):
            return Top("join with " + b.why)
        if type(a) is type(b):
            if isinstance(a, bool) and a == b:
                return a
            if isinstance(a, View) and (a.r, a.c, a.ids) == (b.r, b.c, b.ids):
                return a
            if isinstance(a, Seq_) and len(a.e) == len(b.e) and all(x is y for x, y in zip(a.e, b.e)):
                return a
            if isinstance(a, Ptr) and a.e == b.e and a.o == b.o:
                return a
            if isinstance(a, (Rec, Clo, str)) and a is b or a == b:
                return a
        return Top("join of different shapes")

    def join(self, c, h1, h2):
        r = {}
        for k in h1.keys() | h2.keys():
            if k not in h1:
                r[k] = h2[k]
            elif k not in h2:
                r[k] = h1[k]
            else:
                r[k] = h1[k] if h1[k] is h2[k] else self.phi(c, h1[k], h2[k])
        return r

    # ------------------------------------------------------------ calls
    def call(self, fn, args, this=None, parent=None):
        self.calls += 1
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Undecided("call depth")
        try:
            fr = Frame(fn, this, parent)
            for i, pid in enumerate(fn.params):
                t = fn.tu.types[fn.tu.vars[pid]["t"]]
                if i < len(args):
                    a = args[i]
                else:
                    a = Top("missing argument")
                fr.env[pid] = self.bind(a, t)
            for ini in fn.inits or ():
                self.ctor_init(fr, ini)
            ret = None
            k0 = len(self.known)
            try:
                self.stmt(fr, fn.body)
            except _Ret as e:
                ret = e.v
            # early returns taken on symbolic conditions
            for c, h, v, hp in reversed(fr.pending):
                if v is not None or ret is not None:
                    ret = self.phi_val(c, v, ret, h, self.heap)
                self.heap = self.join(c, h, self.heap)
            del self.known[k0:]
            return ret
        finally:
            self.depth -= 1

    def phi_val(self, c, a, b, h1, h2):
        def val(x, h):
            if isinstance(x, LV):
                x2 = h.get(x.c)
                return x2
            return x
        a2, b2 = val(a, h1), val(b, h2)
        if isinstance(a2, (Mat, View)) or isinstance(b2, (Mat, View)):
            def m(x, h):
                if isinstance(x, View):
                    return Mat(x.r, x.c, [h[i] for i in x.ids], x.arr)
                return x
            a2, b2 = m(a2, h1), m(b2, h2)
            if isinstance(a2, Mat) and isinstance(b2, Mat) and (a2.r, a2.c) == (b2.r, b2.c):
                return Mat(a2.r, a2.c, [self.phi(c, x, y) for x, y in zip(a2.v, b2.v)], a2.arr)
            return Top("join of matrices")
        return self.phi(c, a2, b2)

    def ctor_init(self, fr, ini):
        n = ini.get("m") or ini.get("n")
        if fr.this is None or not n:
            return
        th = self.rv(fr.this)
        if isinstance(th, Rec) and isinstance(ini.get("e") or ini.get("init"), dict):
            v = self.ev(fr, ini.get("e") or ini.get("init"))
            th.f[n] = self.store(v)

    def bind(self, a, t):
        """bind value/lvalue a to a variable of type t"""
        if t.endswith("&") or t.endswith("& const"):
            if isinstance(a, (LV, View)):
                return a
            return self.store(a)
        if isinstance(a, View) and REFLIKE.match(t):
            return a
        st = self.store(a)
        v = self.heap[st.c]
        if isinstance(v, View):
            v.vw = None
            head = t.replace("const ", "").strip()
            if head.startswith(("Eigen::Matrix<", "Eigen::Map<Eigen::Matrix<", "Eigen::Ref<Eigen::Matrix<")):
                v.arr = False
                r, c = mat_dims(t)
                if r == 1 and v.c == 1 and v.r != 1:
                    self.heap[st.c] = View(1, v.r, v.ids)
                elif c == 1 and v.r == 1 and v.c != 1:
                    self.heap[st.c] = View(v.c, 1, v.ids)
            elif head.startswith("Eigen::Array<"):
                v.arr = True
        if INT_T.match(t) and isinstance(v, Q):
            self.heap[st.c] = self.to_int(v)
        return st

    def to_int(self, v):
        if isinstance(v, Q) and v.isconst():
            c = v.constant()
            if c.denominator != 1:
                return self.A.const(int(c))
        return v

    # ------------------------------------------------------------ statements
    def broken(self, text):
        """an error on a path: definite when no undetermined branch was taken to get here"""
        if self.known or not self.at:
            return Undecided(text)
        fr, n = self.at
        return Broken(text, self.P.where(fr.fn, n))

    def stmt(self, fr, n):
        if n is None:
            return
        if "l" in n or n["k"] != "Seq":
            self.at = (fr, n)
        if n.get("m", "").startswith("DNDS_assert") or n.get("m", "").startswith("assert"):
            return
        k = n["k"]
        m = getattr(self, "s_" + k, None)
        if m:
            return m(fr, n)
        self.ev(fr, n)

    def s_Seq(self, fr, n):
        for c in n["c"]:
            self.stmt(fr, c)

    def s_Null(self, fr, n):
        pass

    def s_Decl(self, fr, n):
        for v in n["vars"]:
            self.declvar(fr, v)

    def bound(self, els, t):
        """elements a structured binding names: copies unless the binding (or the element) is a reference"""
        t = t.strip()
        if t.endswith("&"):
            return els
        ts = targs(t) if re.match(r"(const )?std::(pair|tuple)<", t) else []
        return [e if i < len(ts) and ts[i].strip().endswith("&") else self.store(e) for i, e in enumerate(els)]

    def declvar(self, fr, v):
        t = fr.fn.tu.types[v["t"]]
        if v.get("init") is not None:
            x = self.ev(fr, v["init"], want=t)
            if v.get("binds"):
                x = self.rv(x)
                if isinstance(x, Seq_):
                    for b, e in zip(v["binds"], self.bound(x.e, t)):
                        fr.env[b] = e
                    return
                for b in v["binds"]:
                    fr.env[b] = self.store(Top("binding"))
                return
            fr.env[v["id"]] = self.bind(x, t)
        else:
            fr.env[v["id"]] = self.default(t)

    def default(self, t, zero=False):
        t0 = re.sub(r"\bconst\b|&", "", t).strip()
        m = re.match(r"Eigen::(Matrix|Array)<", t0)
        z = self.A.const(0) if zero else Top("uninitialised")
        if m:
            r, c = mat_dims(t0)
            r2, c2 = max(r, 0), max(c, 0)
            return LV(self.cell(View(r2, c2, [self.cell(z) for _ in range(r2 * c2)], m.group(1) == "Array")))
        m = re.match(r"std::array<(.*), (\d+)>$", t0)
        if m:
            return LV(self.cell(Seq_([self.default(m.group(1), zero) for _ in range(int(m.group(2)))])))
        m = re.match(r"(.*?)((\[\d+\])+)$", t0)
        if m:
            dims = [int(x) for x in re.findall(r"\[(\d+)\]", m.group(2))]

            def mk(ds):
                if not ds:
                    return self.default(m.group(1).strip(), zero)
                return LV(self.cell(Seq_([mk(ds[1:]) for _ in range(ds[0])])))
            return mk(dims)
        if re.match(r"std::(__cxx11::)?vector<", t0):
            return LV(self.cell(Seq_([])))
        if re.match(r"std::(pair|tuple)<", t0):
            return LV(self.cell(Seq_([self.default(x, True) for x in targs(t0)])))
        if re.match(r"std::(unordered_)?set<", t0):
            return LV(self.cell(SetV()))
        r = self.P.records.get(t0)
        if r:
            f = {}
            for fd in r.get("fields", ()):
                ft = r["_tu"].types[fd["t"]] if isinstance(fd["t"], int) else fd["t"]
                if fd.get("init"):
                    f[fd["n"]] = self.bind(self.ev(Frame(pseudo(r["_tu"], r["_file"])), fd["init"], want=ft), ft)
                else:
                    f[fd["n"]] = self.default(ft, zero)
            return LV(self.cell(Rec(t0, f)))
        return LV(self.cell(z))

    def s_If(self, fr, n):
        if n.get("init"):
            self.stmt(fr, n["init"])
        if n.get("var"):
            self.stmt(fr, n["var"])
        c = self.truth(self.ev(fr, n["cond"]))
        if c is True:
            return self.stmt(fr, n["then"])
        if c is False:
            return self.stmt(fr, n.get("else"))
        self.forks += 1
        if self.forks > 4000:
            raise Undecided("too many undetermined branches")
        h0 = dict(self.heap)

        def run(s, val):
            self.known.append((c, val))
            k = len(self.known)
            np = len(fr.pending)
            out = ("n", None)
            try:
                self.stmt(fr, s)
            except _Ret as e:
                out = ("r", e.v)
            except (_Brk, _Cont) as e:
                out = ("b", e)
            pend = fr.pending[np:]
            del fr.pending[np:]
            del self.known[k - 1:]
            h = self.heap
            # returns nested inside this arm
            for c2, h2, v2, _ in reversed(pend):
                if out[0] == "r":
                    out = ("r", self.phi_val(c2, v2, out[1], h2, h))
                    h = self.join(c2, h2, h)
                else:
                    raise Undecided("partial return under nested undetermined branches")
            return h, out
        h1, o1 = run(n["then"], True)
        self.heap = dict(h0)
        h2, o2 = run(n.get("else"), False)
        if o1[0] == "b" or o2[0] == "b":
            raise Undecided("loop exit on an undetermined condition")
        if o1[0] == "n" and o2[0] == "n":
            self.heap = self.join(c, h1, h2)
            return
        if o1[0] == "r" and o2[0] == "r":
            v = self.phi_val(c, o1[1], o2[1], h1, h2) if (o1[1] is not None or o2[1] is not None) else None
            self.heap = self.join(c, h1, h2)
            raise _Ret(v)
        if o1[0] == "r":
            fr.pending.append((c, h1, o1[1], None))
            self.heap = h2
            self.known.append((c, False))
        else:
            nc = Cnd(c.op, c.q, not c.neg)
            fr.pending.append((nc, h2, o2[1], None))
            self.heap = h1
            self.known.append((c, True))

    def loop(self, fr, n, cond, inc, first=True):
        it = 0
        while True:
            if cond is not None and (first or it):
                c = self.truth(self.ev(fr, cond))
                if c is False:
                    break
                if c is not True:
                    raise Undecided("loop bound at %s is not known" % self.P.where(fr.fn, n))
            it += 1
            if it > 20000:
                raise Undecided("loop too long")
            try:
                self.stmt(fr, n["body"])
            except _Brk:
                break
            except _Cont:
                pass
            if inc is not None:
                self.ev(fr, inc)

    def s_For(self, fr, n):
        self.stmt(fr, n.get("init"))
        self.loop(fr, n, n.get("cond"), n.get("inc"))

    def s_While(self, fr, n):
        self.loop(fr, n, n.get("cond"), None)

    def s_Do(self, fr, n):
        self.loop(fr, n, n.get("cond"), None, first=False)

    def s_RFor(self, fr, n):
        r = self.rv(self.ev(fr, n["range"]))
        v = n["vars"][0]
        t = fr.fn.tu.types[v["t"]]
        if isinstance(r, Seq_):
            els = list(r.e)
        elif isinstance(r, View):
            els = [LV(i) for i in r.ids]
        elif isinstance(r, Mat):
            els = r.v
        elif isinstance(r, Obj):
            els = r.items(self)
        else:
            raise Undecided("range of a for loop is not known")
        for e in els:
            fr.env[v["id"]] = self.bind(e, t)
            if v.get("binds"):
                x = self.rv(e)
                for b, y in zip(v["binds"], self.bound(x.e, t) if isinstance(x, Seq_) else ()):
                    fr.env[b] = y
            try:
                self.stmt(fr, n["body"])
            except _Brk:
                break
            except _Cont:
                continue

    def s_Switch(self, fr, n):
        if n.get("init"):
            self.stmt(fr, n["init"])
        v = self.q(self.ev(fr, n["cond"]))
        if not isinstance(v, Q) or not v.isconst():
            raise Undecided("switch on an unknown value")
        body = n["body"]["c"] if n["body"]["k"] == "Seq" else [n["body"]]
        # flatten the case labels
        flat = []
        for s in body:
            while s is not None and s["k"] in ("Case", "Default"):
                if s["k"] == "Case":
                    flat.append(("case", s))
                else:
                    flat.append(("default", s))
                s = s.get("body")
            if s is not None:
                flat.append(("s", s))
        start = None
        for i, (kk, s) in enumerate(flat):
            if kk == "case":
                x = self.q(self.ev(fr, s["val"]))
                if isinstance(x, Q) and (x - v).iszero():
                    start = i
                    break
        if start is None:
            for i, (kk, s) in enumerate(flat):
                if kk == "default":
                    start = i
                    break
        if start is None:
            return
        try:
            for kk, s in flat[start:]:
                if kk == "s":
                    self.stmt(fr, s)
        except _Brk:
            pass

    def s_Return(self, fr, n):
        v = self.ev(fr, n["e"]) if n.get("e") else None
        if v is not None:
            ret = fr.fn.info.get("ret")
            rt = fr.fn.tu.types[ret] if isinstance(ret, int) and 0 <= ret < len(fr.fn.tu.types) else str(ret or "")
            # by-value results are copied
            if isinstance(v, (LV, View)) and (rt.endswith("&") or REFLIKE.match(rt)):
                x = self.rv(v) if isinstance(v, LV) and REFLIKE.match(rt) else v
                v = x if isinstance(x, View) else v
            elif isinstance(v, (LV, View)):
                x = self.rv(v)
                if isinstance(x, View):
                    v = self.mat(x)
                elif isinstance(x, (Q, bool, Cnd, Top)):
                    v = x
                else:
                    v = self.store(x)
        raise _Ret(v)

    def s_Break(self, fr, n):
        raise _Brk()

    def s_Continue(self, fr, n):
        raise _Cont()

    def s_OMP(self, fr, n):
        if n.get("body"):
            self.stmt(fr, n["body"])

    def s_Try(self, fr, n):
        self.stmt(fr, n["body"])

    def check_assert(self, fr, n):
        """an assertion whose condition is known to be false on this path"""
        c = strip(n)
        while c is not None and c["k"] in ("Cast", "ICast", "Paren"):
            c = strip(c["e"]) if c.get("e") else None
        if c is None or c["k"] != "Cond":
            return
        if any(x["k"] in ("Call", "Lam", "Asg", "New", "OpCall", "MCall", "Con", "Un") for x in walk(c["c"])):
            return
        if self.truth(self.ev(fr, c["c"])) is False:
            self.at = (fr, n)
            raise self.broken("an assertion is false on this path")

    # ------------------------------------------------------------ expressions
    def ev(self, fr, n, want=None):
        if n is None:
            return Top("null")
        if n.get("m", "").startswith("DNDS_assert"):
            self.check_assert(fr, n)
            return Top("assert")
        k = n["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            return Top("expression kind " + k)
        if k in ("InitL", "Con", "ZInit", "Call", "OpCall", "ICast", "Cast"):
            return m(fr, n, want)
        return m(fr, n)

    def e_Int(self, fr, n):
        return self.A.const(n["v"])

    def e_Bool(self, fr, n):
        return bool(n["v"])

    def e_Flt(self, fr, n):
        return self.A.const(Fraction(n["v"]))

    def e_Str(self, fr, n):
        return str(n.get("v"))

    def e_NullP(self, fr, n):
        return Ptr((), 0)

    def e_This(self, fr, n):
        f = fr
        while f is not None:
            if f.this is not None:
                return f.this
            f = f.parent
        return Top("this")

    def e_SizeOf(self, fr, n):
        return self.A.const(n["v"]) if "v" in n else Top("sizeof")

    def e_ZInit(self, fr, n, want=None):
        return self.default(want or self.P.type(fr.fn, n), True)

    def e_Comma(self, fr, n):
        r = None
        for x in n["c"] if "c" in n else (n["a"], n["b"]):
            r = self.ev(fr, x)
        return r

    def e_Ref(self, fr, n):
        x = fr.find(n["id"])
        if x is not None:
            return x
        nm = n["n"]
        v = fr.fn.tu.vars[n["id"]]
        q = v.get("q", nm)
        if nm in ("all",) and "Eigen" in self.P.type(fr.fn, n) + q:
            return ALL
        if nm in ("last", "lastp1") and "Eigen" in self.P.type(fr.fn, n) + q:
            return LAST
        if nm in ("verySmallReal",) and self.small:
            return self.A.const(0)
        if "v" in n:
            return self.A.const(n["v"])
        t = self.P.type(fr.fn, n)
        mm = re.search(r"Eigen::internal::FixedInt<(-?\d+)>", t)
        if mm:
            return self.A.const(int(mm.group(1)))
        g = self.P.globals.get(q)
        if g is not None:
            if q not in self.gcache:
                d = g["d"]
                f2 = Frame(pseudo(g["_tu"], g["_file"]))
                gt = g["_tu"].types[d["t"]]
                self.gcache[q] = self.bind(self.ev(f2, d["init"], want=gt), gt.replace("&", "")) if d.get("init") else self.default(gt)
            return self.gcache[q]
        if v.get("init"):
            return self.ev(fr, v["init"])
        return Top("variable " + nm)

    def glob(self, q):
        """value of a namespace-scope variable"""
        g = self.P.globals[q]
        if q not in self.gcache:
            d = g["d"]
            f2 = Frame(pseudo(g["_tu"], g["_file"]))
            gt = g["_tu"].types[d["t"]]
            self.gcache[q] = self.bind(self.ev(f2, d["init"], want=gt), gt.replace("&", "")) if d.get("init") else self.default(gt)
        return self.gcache[q]

    def pylist(self, v):
        v = self.rv(v)
        if isinstance(v, Seq_):
            return [self.pylist(x) for x in v.e]
        return self.int(v)

    def e_FRef(self, fr, n):
        return Clo([n["fn"]], None, fr.fn)

    def e_Mem(self, fr, n):
        if n.get("fn") is not None:
            return Top("member function")
        b = self.rv(self.ev(fr, n["b"])) if n.get("b") else Top("")
        if isinstance(b, Ptr) and b.e:
            b = self.rv(b.e[b.o])
        if isinstance(b, Obj):
            return b.fld(self, fr, n)
        if isinstance(b, Rec):
            if n["n"] not in b.f:
                b.f[n["n"]] = LV(self.cell(Top("field " + n["n"])))
            return b.f[n["n"]]
        if isinstance(b, Seq_) and n["n"] in ("first", "second") and len(b.e) == 2:
            return b.e[0 if n["n"] == "first" else 1]
        return Top("member " + n["n"])

    def e_Un(self, fr, n):
        op = n["op"]
        if op == "&":
            x = n["e"]
            while x["k"] in ("ICast", "Cast"):
                x = x["e"]
            if x["k"] == "Idx":
                b = self.rv(self.ev(fr, x["b"]))
                i = self.int(self.ev(fr, x["i"]))
                # pointer into a (possibly multi-dimensional) array: flat element list of the outermost array
                y = x["b"]
                outer = [x]
                while y["k"] == "Idx":
                    outer.append(y)
                    y = y["b"]
                base = self.rv(self.ev(fr, y))
                idx = [self.int(self.ev(fr, o["i"])) for o in reversed(outer)]
                if isinstance(base, Seq_):
                    flat, off = flatten(self, base), 0
                    dims = []
                    z = base
                    while isinstance(z, Seq_):
                        dims.append(len(z.e))
                        z = self.rv(z.e[0])
                    for d, ii in zip(dims, idx):
                        off = off * d + ii
                    for d in dims[len(idx):]:
                        off *= d
                    return Ptr(flat, off)
                if isinstance(base, Ptr):
                    return Ptr(base.e, base.o + idx[0])
            v = self.ev(fr, n["e"])
            return Ptr((v,), 0)
        if op == "*":
            v = self.rv(self.ev(fr, n["e"]))
            if isinstance(v, Ptr) and v.o < len(v.e):
                return v.e[v.o]
            if isinstance(v, Rec):
                return v
            return Top("dereference")
        x = self.ev(fr, n["e"])
        if op in ("++", "--", "p++", "p--"):
            old = self.q(x)
            if isinstance(old, Q):
                new = old + (1 if "++" in op else -1)
            else:
                new = Top("++")
            if isinstance(x, LV):
                self.heap[x.c] = new
            return old if op.startswith("p") else x
        if op == "!":
            t = self.truth(x)
            return (not t) if isinstance(t, bool) else Cnd(t.op, t.q, not t.neg)
        v = self.q(x)
        if op == "-":
            if isinstance(v, Q):
                return -v
            m = self.mat(v)
            return Mat(m.r, m.c, [neg(a) for a in m.v], m.arr) if isinstance(m, Mat) else Top("-")
        if op == "+":
            return v
        return Top("unary " + op)

    def arith(self, op, a, b, integral=False):
        a, b = self.q(a), self.q(b)
        if isinstance(a, Top) or isinstance(b, Top):
            # 0 * unknown is 0 only for finite values: keep TOP
            return a if isinstance(a, Top) else b
        if not isinstance(a, Q) or not isinstance(b, Q):
            return Top("arithmetic on %r %r" % (type(a).__name__, type(b).__name__))
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if integral:
                if a.isconst() and b.isconst() and b.constant() != 0:
                    x, y = int(a.constant()), int(b.constant())
                    r = abs(x) // abs(y)
                    return self.A.const(r if (x < 0) == (y < 0) else -r)
                return Top("integer division")
            if b.iszero():
                return Top("division by zero")
            return a / b
        if op == "%":
            if a.isconst() and b.isconst() and b.constant() != 0:
                return self.A.const(int(math.fmod(int(a.constant()), int(b.constant()))))
            return Top("%")
        if a.isconst() and b.isconst() and a.constant().denominator == 1 and b.constant().denominator == 1:
            x, y = int(a.constant()), int(b.constant())
            if op == "<<":
                return self.A.const(x << y)
            if op == ">>":
                return self.A.const(x >> y)
            if op == "&":
                return self.A.const(x & y)
            if op == "|":
                return self.A.const(x | y)
            if op == "^":
                return self.A.const(x ^ y)
        return Top("operator " + op)

    def e_Bin(self, fr, n):
        op = n["op"]
        if op in ("&&", "||"):
            a = self.truth(self.ev(fr, n["a"]))
            if a is False and op == "&&":
                return False
            if a is True and op == "||":
                return True
            b = self.truth(self.ev(fr, n["b"]))
            if a is True or a is False:
                return b
            if b is False and op == "&&":
                return False
            if b is True and op == "||":
                return True
            if b is True or b is False:
                return a
            return Cnd("?", (op, a, b))
        a, b = self.ev(fr, n["a"]), self.ev(fr, n["b"])
        if op == ",":
            return b
        if op in ("<", ">", "<=", ">=", "==", "!="):
            pa, pb = self.rv(a), self.rv(b)
            if isinstance(pa, Ptr) or isinstance(pb, Ptr):
                if isinstance(pa, Ptr) and isinstance(pb, Ptr) and (not pa.e or not pb.e):
                    return ((not pa.e) == (not pb.e)) == (op == "==")
                if isinstance(pa, Ptr) and isinstance(pb, Ptr) and len(pa.e) == len(pb.e) == 1 and op in ("==", "!="):
                    xa, xb = self.rv(pa.e[0]), self.rv(pb.e[0])
                    if isinstance(xa, Obj) and isinstance(xb, Obj):
                        return (xa is xb) == (op == "==")
                return Cnd("?", Top("pointer comparison"))
            return self.cnd(op, a, b)
        pa = self.rv(a)
        if isinstance(pa, Seq_) and op in ("+", "-"):
            pa = Ptr(tuple(flatten(self, pa)), 0)
        if isinstance(pa, Ptr) and op in ("+", "-"):
            d = self.int(b)
            return Ptr(pa.e, pa.o + (d if op == "+" else -d))
        return self.arith(op, a, b, bool(INT_T.match(self.P.type(fr.fn, n))))

    def e_Asg(self, fr, n):
        op = n["op"]
        if op == "=":
            b = self.ev(fr, n["b"])
            a = self.ev(fr, n["a"])
            b = self.rv(b)
            if INT_T.match(self.P.type(fr.fn, n)):
                b = self.to_int(b)
            self.assign(a, b)
            return a
        a = self.ev(fr, n["a"])
        b = self.ev(fr, n["b"])
        r = self.arith(op[:-1], a, b, bool(INT_T.match(self.P.type(fr.fn, n))))
        self.assign(a, r)
        return a

    def e_Idx(self, fr, n):
        b = self.rv(self.ev(fr, n["b"]))
        i = self.int(self.ev(fr, n["i"]))
        return self.index(b, i)

    def index(self, b, i):
        if isinstance(b, Seq_):
            if 0 <= i < len(b.e):
                return b.e[i]
            raise self.broken("index %d out of range %d" % (i, len(b.e)))
        if isinstance(b, Ptr):
            if 0 <= b.o + i < len(b.e):
                return b.e[b.o + i]
            raise self.broken("pointer index %d out of range" % (b.o + i))
        if isinstance(b, View):
            if 0 <= i < len(b.ids):
                return LV(b.ids[lin(b, i)])
            raise self.broken("index %d out of range %d" % (i, len(b.ids)))
        if isinstance(b, Mat):
            if 0 <= i < len(b.v):
                return b.v[lin(b, i)]
            raise self.broken("index %d out of range" % i)
        return Top("index of %r" % (b,))

    def e_Cond(self, fr, n):
        c = self.truth(self.ev(fr, n["c"]))
        if c is True:
            return self.ev(fr, n["a"])
        if c is False:
            return self.ev(fr, n["b"])
        a, b = self.rv(self.ev(fr, n["a"])), self.rv(self.ev(fr, n["b"]))
        if isinstance(a, (Mat, View)) or isinstance(b, (Mat, View)):
            a, b = self.mat(a), self.mat(b)
            return Mat(a.r, a.c, [self.phi(c, x, y) for x, y in zip(a.v, b.v)], a.arr)
        return self.phi(c, a, b)

    def e_ICast(self, fr, n, want=None):
        if "v" in n and n["e"]["k"] not in ("Call", "MCall"):
            return self.A.const(n["v"])
        v = self.ev(fr, n["e"], want)
        if INT_T.match(self.P.type(fr.fn, n)):
            x = self.rv(v)
            if isinstance(x, Q):
                return self.to_int(x)
        return v

    def e_Cast(self, fr, n, want=None):
        return self.e_ICast(fr, n, want)

    def e_InitL(self, fr, n, want=None):
        t = want or self.P.type(fr.fn, n) or ""
        t = re.sub(r"\bconst\b|&", "", t).strip()
        c = n.get("c", [])
        m = re.match(r"std::array<.*>$", t)
        if m and len(c) == 1 and c[0]["k"] == "InitL" and not re.match(r"std::array<.*>$", (self.P.type(fr.fn, c[0]) or "").replace("const", "").strip()):
            c = c[0].get("c", [])
        if m:
            el = targs(t)
            n_el = int(el[1])
            out = [self.bind(self.ev(fr, x, el[0]), el[0]) for x in c]
            while len(out) < n_el:
                out.append(self.default(el[0], True))
            return LV(self.cell(Seq_(out)))
        m = re.match(r"(.*?)((\[\d+\])+)$", t)
        if m:
            dims = [int(x) for x in re.findall(r"\[(\d+)\]", m.group(2))]
            et = m.group(1).strip() + "".join("[%d]" % d for d in dims[1:])
            out = [self.bind(self.ev(fr, x, et), et) if len(dims) == 1 else self.ev(fr, x, et) for x in c if x["k"] != "ZInit" or True]
            out = [x if isinstance(x, LV) else self.store(x) for x in out]
            out = out[:dims[0]]
            while len(out) < dims[0]:
                out.append(self.default(et, True))
            return LV(self.cell(Seq_(out)))
        if re.match(r"Eigen::", t):
            r, cc = mat_dims(t)
            if len(c) == 1 and c[0]["k"] != "InitL":
                return self.ev(fr, c[0])
            rows = [x for x in c]
            if rows and all(x["k"] == "InitL" for x in rows):
                vals = [[self.q(self.ev(fr, y)) for y in x["c"]] for x in rows]
                return Mat(len(vals), len(vals[0]), [y for x in vals for y in x])
            vals = [self.q(self.ev(fr, x)) for x in c]
            return Mat(len(vals), 1, vals) if cc == 1 else Mat(1, len(vals), vals)
        rec = self.P.records.get(t)
        if rec:
            lv = self.default(t)
            r = self.heap[lv.c]
            for fd, x in zip(rec.get("fields", ()), c):
                ft = rec["_tu"].types[fd["t"]] if isinstance(fd["t"], int) else fd["t"]
                r.f[fd["n"]] = self.bind(self.ev(fr, x, ft), ft)
            return lv
        if len(c) == 1 and (not t or INT_T.match(t) or t in ("double", "float") or True) and not t.startswith("std::"):
            return self.ev(fr, c[0])
        if not c and (INT_T.match(t) or t in ("double", "float")):
            return self.A.const(0)
        return LV(self.cell(Seq_([self.store(self.ev(fr, x)) for x in c])))

    def e_Con(self, fr, n, want=None):
        a = n["args"]
        t = re.sub(r"\bconst\b|&", "", self.P.type(fr.fn, n) or want or "").strip()
        if self.hooks and ("new " + t) in self.hooks and not (n.get("copy") or n.get("move")):
            return self.hooks["new " + t](self, fr, n, [self.ev(fr, x) for x in a])
        mm = re.search(r"Eigen::internal::FixedInt<(-?\d+)>", t)
        if mm:
            return self.A.const(int(mm.group(1)))
        if "Eigen::internal::all_t" in t:
            return ALL
        if "std::function<" in t and len(a) == 1:
            return self.ev(fr, a[0])
        if len(a) == 1 and (n.get("copy") or n.get("move")):
            return self.ev(fr, a[0], t)
        if t.startswith("Eigen::Map<"):
            return self.mapped(fr, t, a)
        if t.startswith("Eigen::Ref<") and a:
            return self.ev(fr, a[0])
        if re.match(r"Eigen::(FullPivLU|PartialPivLU|ColPivHouseholderQR|HouseholderQR|FullPivHouseholderQR|LDLT|LLT|CompleteOrthogonalDecomposition)<", t) and len(a) == 1:
            m = self.mat(self.ev(fr, a[0]))
            if isinstance(m, Mat):
                return self.store(Rec("Eigen decomposition", {"m": self.store(m)}))
        if t.startswith(("Eigen::AngleAxis<", "Eigen::Quaternion<", "Eigen::Transform<", "Eigen::Rotation2D<")):
            return Top("construct " + t[:40])
        if t.startswith("Eigen::"):
            r, c = mat_dims(t)
            if not a:
                return self.default(t)
            if len(a) == 1:
                x = self.rv(self.ev(fr, a[0], t))
                if isinstance(x, Seq_):
                    rows = [self.rv(y) for y in x.e]
                    if rows and all(isinstance(y, Seq_) for y in rows):
                        return Mat(len(rows), len(rows[0].e), [self.q(z) for y in rows for z in y.e])
                    vals = [self.q(y) for y in x.e]
                    return Mat(len(vals), 1, vals) if c == 1 else Mat(1, len(vals), vals)
                if isinstance(x, (Mat, View)):
                    m = self.mat(x)
                    if isinstance(m, Mat):
                        m = Mat(m.r, m.c, m.v, t.startswith("Eigen::Array"))
                        if r == 1 and m.c == 1 and m.r != 1:
                            m.r, m.c = 1, m.r
                        elif c == 1 and m.r == 1 and m.c != 1:
                            m.r, m.c = m.c, 1
                    return m
                if isinstance(x, Q) and x.isconst() and (r == -1 or c == -1 or (r * c > 1 and 1 in (r, c) and x.constant() == r * c)):
                    k = int(x.constant())
                    rr, cc = (1, k) if r == 1 else (k, 1)
                    return LV(self.cell(View(rr, cc, [self.cell(Top("uninitialised")) for _ in range(k)])))
                return Top("construct " + t[:40])
            vals = [self.ev(fr, x) for x in a]
            rows = [self.rv(x) for x in vals]
            if all(isinstance(y, Seq_) for y in rows):
                return Mat(len(rows), len(rows[0].e), [self.q(z) for y in rows for z in y.e])
            vals = [self.q(x) for x in vals]
            if (r == -1 or c == -1 or r * c != 2) and len(vals) == 2 and not any(isinstance(x, Mat) for x in vals):
                k1, k2 = self.int(vals[0]), self.int(vals[1])
                return LV(self.cell(View(k1, k2, [self.cell(Top("uninitialised")) for _ in range(k1 * k2)])))
            if c == 1 or (r > 1 and len(vals) == r):
                return Mat(len(vals), 1, vals)
            return Mat(1, len(vals), vals)
        if re.match(r"std::(__cxx11::)?vector<", t):
            if not a:
                return LV(self.cell(Seq_([])))
            x = self.rv(self.ev(fr, a[0]))
            et = targs(t)[0]
            if isinstance(x, Seq_):
                return LV(self.cell(Seq_([self.store(y) for y in x.e])))
            if isinstance(x, Q):
                k = self.int(x)
                if len(a) > 1:
                    v = self.ev(fr, a[1])
                    return LV(self.cell(Seq_([self.store(v) for _ in range(k)])))
                return LV(self.cell(Seq_([self.default(et, True) for _ in range(k)])))
            if isinstance(x, Ptr) and len(a) >= 2:
                y = self.rv(self.ev(fr, a[1]))
                if isinstance(y, Ptr) and x.e == y.e:
                    return LV(self.cell(Seq_([self.store(z) for z in x.e[x.o:y.o]])))
            return Top("vector")
        if re.match(r"std::(pair|tuple)<", t):
            if a:
                return LV(self.cell(Seq_([self.store(self.ev(fr, x)) for x in a])))
            return self.default(t, True)
        if re.match(r"std::array<", t) or re.match(r"std::(unordered_)?set<", t) and not a:
            return self.default(t)
        if "std::initializer_list" in t and len(a) == 1:
            return self.ev(fr, a[0])
        if t.startswith(("std::basic_string<", "std::__cxx11::basic_string<")) and a:
            x = self.rv(self.ev(fr, a[0]))
            if isinstance(x, str):
                return x
        rec = self.P.records.get(t)
        tg = self.P.targets(fr.fn, n)
        if rec:
            lv = self.default(t)
            if tg:
                args = [self.ev(fr, x) for x in a]
                self.call(tg[0], args, this=lv)
            elif len(a) == len(rec.get("fields", ())) and a:
                r = self.heap[lv.c]
                for fd, x in zip(rec["fields"], a):
                    r.f[fd["n"]] = self.store(self.ev(fr, x))
            return lv
        if len(a) == 1:
            return self.ev(fr, a[0])
        return Top("construct " + t[:60])

    def e_Lam(self, fr, n):
        fr2 = Frame(fr.fn, None, fr)
        for c in n["caps"]:
            if c.get("this"):
                continue
            if c.get("init"):
                fr2.env[c["id"]] = self.store(self.ev(fr, c["init"])) if not c.get("ref") else self.ev(fr, c["init"])
            elif not c.get("ref"):
                x = fr.find(c["id"])
                if x is not None:
                    fr2.env[c["id"]] = self.store(x)
        return Clo(n["fns"], fr2, fr.fn)

    def e_Throw(self, fr, n):
        return Top("throw")

    def e_New(self, fr, n):
        return Top("new")

    # ------------------------------------------------------------ operators and methods on objects
    def e_OpCall(self, fr, n, want=None):
        op = n["op"]
        a = n["args"]
        tg = self.P.targets(fr.fn, n)
        if self.hooks:
            q = self.P.callee_q(fr.fn, n)
            if q in self.hooks:
                return self.hooks[q](self, fr, n, [self.ev(fr, x) for x in a])
        if op in ("()", "[]") and a and tg:
            f0 = self.rv(self.ev(fr, a[0]))
            if isinstance(f0, Ptr) and f0.e:
                f0 = self.rv(f0.e[f0.o])
            if isinstance(f0, Obj):
                return f0.idx(self, fr, n, [self.ev(fr, x) for x in a[1:]])
        if op == "()" and a:
            f = self.rv(self.ev(fr, a[0]))
            if isinstance(f, Obj):
                return f.idx(self, fr, n, [self.ev(fr, x) for x in a[1:]])
            if isinstance(f, Clo) or (tg and not isinstance(f, (View, Mat))):
                args = [self.ev(fr, x) for x in a[1:]]
                return self.apply(fr, n, f, args, tg)
            if callable(f):
                return f(self, fr, n, [self.ev(fr, x) for x in a[1:]])
            if isinstance(f, (View, Mat)):
                return self.slice(f, [self.idx(fr, x) for x in a[1:]])
            return Top("call of %r" % (f,))
        if tg and op not in ("<<", ">>"):
            args = [self.ev(fr, x) for x in a]
            fn = tg[0]
            if len(fn.params) == len(args) - 1:
                return self.call(fn, args[1:], this=args[0])
            return self.call(fn, args)
        if op == "[]":
            b = self.rv(self.ev(fr, a[0]))
            if isinstance(b, Obj):
                return b.idx(self, fr, n, [self.ev(fr, a[1])])
            if isinstance(b, (View, Mat)):
                return self.slice(b, [self.idx(fr, a[1])])
            return self.index(b, self.int(self.ev(fr, a[1])))
        if op == "=":
            b = self.ev(fr, a[1], want=self.P.type(fr.fn, a[0]) if a[1]["k"] in ("InitL",) else None)
            l = self.ev(fr, a[0])
            b = self.rv(b)
            if isinstance(b, View):
                b = self.mat(b)
            if isinstance(b, Seq_):
                b = self.rv(self.store(b))
            self.assign(l, b)
            return l
        if op in ("+=", "-=", "*=", "/="):
            l = self.ev(fr, a[0])
            r = self.ev(fr, a[1])
            if isinstance(self.rv(l), (View,)):
                self.assign_nv(l, self.mop(op[0], l, r))
                return l
            v = self.arith(op[0], l, r)
            self.assign(l, v)
            return l
        if op == "<<":
            l = self.ev(fr, a[0])
            x = self.rv(l)
            if isinstance(x, View):
                ci = CommaInit(l)
                self.comma(ci, self.ev(fr, a[1]))
                return ci
            return Top("stream")
        if op == ",":
            l = self.ev(fr, a[0])
            if isinstance(l, CommaInit):
                self.comma(l, self.ev(fr, a[1]))
                return l
            return self.ev(fr, a[1])
        if op in ("+", "-", "*", "/"):
            if len(a) == 1:
                if op == "*":
                    v = self.rv(self.ev(fr, a[0]))
                    if isinstance(v, Ptr) and v.o < len(v.e):
                        return v.e[v.o]
                    return v
                v = self.rv(self.ev(fr, a[0]))
                if isinstance(v, (View, Mat)):
                    m = self.mat(v)
                    return Mat(m.r, m.c, [neg(x) if op == "-" else x for x in m.v], m.arr)
                x = self.q(v)
                return neg(x) if op == "-" else x
            l, r = self.rv(self.ev(fr, a[0])), self.rv(self.ev(fr, a[1]))
            if isinstance(l, Ptr) and isinstance(r, Q):
                return Ptr(l.e, l.o + (self.int(r) if op == "+" else -self.int(r)))
            if isinstance(l, Ptr) and isinstance(r, Ptr) and op == "-" and l.e == r.e:
                return self.A.const(l.o - r.o)
            if isinstance(l, (View, Mat)) or isinstance(r, (View, Mat)):
                return self.mop(op, l, r)
            if l is LAST and isinstance(r, Q):
                return (LAST, -self.int(r) if op == "-" else self.int(r))
            return self.arith(op, l, r)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            l, r = self.rv(self.ev(fr, a[0])), self.rv(self.ev(fr, a[1]))
            if isinstance(l, str) and isinstance(r, str):
                return (l == r) == (op == "==")
            if isinstance(l, Ptr) and isinstance(r, Ptr) and l.e == r.e:
                return {"==": l.o == r.o, "!=": l.o != r.o, "<": l.o < r.o, ">": l.o > r.o, "<=": l.o <= r.o, ">=": l.o >= r.o}[op]
            if isinstance(l, (Mat, View)) != isinstance(r, (Mat, View)) and (l if isinstance(l, (Mat, View)) else r).arr:
                ml, mr = (self.mat(y) if isinstance(y, (Mat, View)) else None for y in (l, r))
                return BMat([self.cnd(op, y, r) for y in ml.v] if ml else [self.cnd(op, l, y) for y in mr.v])
            return self.cnd(op, l, r)
        if op in ("++", "--", "p++", "p--"):
            l = self.ev(fr, a[0])
            v = self.rv(l)
            if isinstance(v, Ptr) and isinstance(l, LV):
                self.heap[l.c] = Ptr(v.e, v.o + (1 if "++" in op else -1))
                return v if op[0] == "p" else l
        if op == "->":
            return self.rv(self.ev(fr, a[0]))
        for x in a:
            self.ev(fr, x)
        return Top("operator " + op)

    def assign_nv(self, l, v):
        x = self.rv(l)
        if isinstance(x, View) and x.vw:
            m = self.mat(v)
            for i, y in zip(x.ids, m.v):
                self.heap[i] = y
            return
        self.assign(l, v)

    def comma(self, ci, v):
        x = self.rv(ci.lv)
        v = self.rv(v)
        vals = [v] if isinstance(v, (Q, Top)) else self.mat(v).v
        if isinstance(v, (Mat, View)) and x.c != 1 and (ci.pos % x.c or self.mat(v).r > 1):
            m = self.mat(v)
            i0, j0 = divmod(ci.pos, x.c)
            if m.r > 1 or j0 + m.c > x.c:
                # a block: the next one stands to its right until the row is full, then below
                if j0 + m.c > x.c or i0 + m.r > x.r:
                    raise Undecided("block comma initialiser")
                for i in range(m.r):
                    for j in range(m.c):
                        self.heap[x.ids[(i0 + i) * x.c + j0 + j]] = self.q(m.v[i * m.c + j])
                ci.pos += m.c
                if ci.pos % x.c == 0:
                    ci.pos += (m.r - 1) * x.c
                return
        for y in vals:
            if ci.pos < len(x.ids):
                self.heap[x.ids[ci.pos]] = self.q(y)
            ci.pos += 1

    def idx(self, fr, n):
        v = self.ev(fr, n)
        x = v if isinstance(v, (str, SeqIdx, tuple)) else self.rv(v)
        return x

    def expand(self, x, size):
        """list of positions selected by an index expression, and whether it is a scalar index"""
        if isinstance(x, str) and x == ALL:
            return list(range(size)), False
        if isinstance(x, str) and x == LAST:
            return [size - 1], True
        if isinstance(x, tuple) and x and x[0] == LAST:
            return [size - 1 + x[1]], True
        if isinstance(x, SeqIdx):
            a = self.expand(x.a, size)[0][0]
            b = self.expand(x.b, size)[0][0]
            return list(range(a, b + (1 if x.s > 0 else -1), x.s)), False
        if isinstance(x, Seq_):
            return [self.int(y) for y in x.e], False
        if isinstance(x, (View, Mat)) and not (x.r == 1 and x.c == 1):
            return [self.int(y) for y in self.mat(x).v], False
        return [self.int(x)], True

    def slice(self, m, ix):
        r, c = m.r, m.c
        if len(ix) == 1:
            n = r * c
            p, sc = self.expand(ix[0], n)
            if any(not 0 <= i < n for i in p):
                raise self.broken("index out of range of a %dx%d matrix" % (r, c))
            if sc:
                return LV(m.ids[lin(m, p[0])]) if isinstance(m, View) else m.v[lin(m, p[0])]
            rr, cc = (len(p), 1) if c == 1 else (1, len(p))
            src = [lin(m, i) for i in p]
        else:
            pr, s1 = self.expand(ix[0], r)
            pc, s2 = self.expand(ix[1], c)
            if any(not 0 <= i < r for i in pr) or any(not 0 <= j < c for j in pc):
                raise self.broken("index out of range of a %dx%d matrix" % (r, c))
            if s1 and s2:
                k = pr[0] * c + pc[0]
                return LV(m.ids[k]) if isinstance(m, View) else m.v[k]
            rr, cc = len(pr), len(pc)
            src = [i * c + j for i in pr for j in pc]
        if isinstance(m, View):
            return View(rr, cc, [m.ids[k] for k in src], m.arr)
        return Mat(rr, cc, [m.v[k] for k in src], m.arr)

    def mop(self, op, l, r):
        l, r = self.rv(l), self.rv(r)
        if isinstance(l, Top) or isinstance(r, Top):
            return l if isinstance(l, Top) else r
        lm = self.mat(l) if isinstance(l, (View, Mat)) else None
        rm = self.mat(r) if isinstance(r, (View, Mat)) else None
        f = lambda x, y: self.arith(op, x, y)
        if lm is None or rm is None:
            if lm is not None:
                s = self.q(r)
                return Mat(lm.r, lm.c, [f(x, s) for x in lm.v], lm.arr)
            s = self.q(l)
            return Mat(rm.r, rm.c, [f(s, x) for x in rm.v], rm.arr)
        if lm.vw or rm.vw:
            big, small = (lm, rm) if lm.vw else (rm, lm)
            out = []
            for i in range(big.r):
                for j in range(big.c):
                    s = small.v[i] if big.vw == "col" else small.v[j]
                    x = big.v[i * big.c + j]
                    out.append(f(x, s) if lm.vw else f(s, x))
            return Mat(big.r, big.c, out, big.arr)
        if op in ("+", "-") or (lm.arr or rm.arr):
            if (lm.r, lm.c) != (rm.r, rm.c):
                if lm.r * lm.c == rm.r * rm.c and 1 in (lm.r, lm.c) and 1 in (rm.r, rm.c):
                    pass
                elif lm.r * lm.c == 1:
                    return Mat(rm.r, rm.c, [f(lm.v[0], x) for x in rm.v], rm.arr)
                elif rm.r * rm.c == 1:
                    return Mat(lm.r, lm.c, [f(x, rm.v[0]) for x in lm.v], lm.arr)
                else:
                    raise self.broken("shape mismatch %dx%d %s %dx%d" % (lm.r, lm.c, op, rm.r, rm.c))
            return Mat(lm.r, lm.c, [f(x, y) for x, y in zip(lm.v, rm.v)], lm.arr or rm.arr)
        if op == "*":
            if lm.r * lm.c == 1 and rm.r != 1:
                return Mat(rm.r, rm.c, [f(lm.v[0], x) for x in rm.v])
            if lm.c != rm.r:
                if rm.r * rm.c == 1:
                    return Mat(lm.r, lm.c, [f(x, rm.v[0]) for x in lm.v])
                raise self.broken("shape mismatch %dx%d * %dx%d" % (lm.r, lm.c, rm.r, rm.c))
            out = []
            for i in range(lm.r):
                for j in range(rm.c):
                    s = self.A.const(0)
                    for k in range(lm.c):
                        s = self.arith("+", s, self.arith("*", lm.v[i * lm.c + k], rm.v[k * rm.c + j]))
                    out.append(s)
            return Mat(lm.r, rm.c, out)
        return Top("matrix " + op)

    def e_MCall(self, fr, n):
        nm = (self.P.callee_q(fr.fn, n) or "?").rsplit("::", 1)[-1]
        tg = self.P.targets(fr.fn, n)
        b = self.ev(fr, n["b"]) if n.get("b") else None
        q = self.P.callee_q(fr.fn, n)
        if q in self.hooks:
            return self.hooks[q](self, fr, n, [b] + [self.ev(fr, x) for x in n["args"]])
        x = self.rv(b) if b is not None else Top("")
        if isinstance(x, Ptr) and x.e:
            b = x.e[x.o]
            x = self.rv(b)
        if isinstance(x, Obj):
            r = x.meth(self, fr, n, nm, n["args"])
            if r is not NotImplemented:
                return r
            if not tg:
                raise Undecided("%s has no method %s" % (type(x).__name__, nm))
        if tg and not isinstance(x, (View, Mat)):
            return self.call(tg[0], [self.ev(fr, y) for y in n["args"]], this=b)
        if isinstance(x, Clo) and nm == "operator()":
            return self.apply(fr, n, x, [self.ev(fr, y) for y in n["args"]], tg)
        if callable(x) and nm == "operator()":
            return x(self, fr, n, [self.ev(fr, y) for y in n["args"]])
        args = n["args"]
        if isinstance(x, (View, Mat)):
            return self.method(fr, n, b, x, nm, args)
        if isinstance(x, Seq_):
            return self.cmethod(fr, n, b, x, nm, args)
        if isinstance(x, Q) and nm.startswith("operator "):
            return x
        if isinstance(x, Rec) and x.t == "Eigen decomposition":
            m = self.mat(x.f["m"])
            if nm in ("inverse", "pseudoInverse"):
                return self.matinv(m)
            if nm == "solve":
                return self.mop("*", self.matinv(m), self.mat(self.ev(fr, args[0])))
            if nm == "determinant":
                return self.det(m)
        for y in args:
            self.havoc(fr, y)
        return Top("method " + nm)

    def mapped(self, fr, t, a):
        """Eigen::Map over storage with known element cells"""
        tt = targs(t)
        m = targs(tt[0])
        r, c = mat_dims(tt[0])
        p = self.rv(self.ev(fr, a[0]))
        if isinstance(p, Seq_):
            p = Ptr(tuple(flatten(self, p)), 0)
        if not isinstance(p, Ptr) or p.e is None:
            raise Undecided("Map of unknown storage")
        dims = [self.int(self.ev(fr, x)) for x in a[1:] if "Stride<" not in (self.P.type(fr.fn, x) or "")]
        if len(dims) > 2:
            raise Undecided("Map with run-time strides")
        if len(dims) == 2:
            r, c = dims
        elif len(dims) == 1:
            r, c = (1, dims[0]) if r == 1 else (dims[0], 1)
        if r < 0 or c < 0:
            raise Undecided("Map of unknown size")
        opt = int(m[3]) if len(m) > 3 and re.match(r"-?\d+$", m[3]) else 0
        rowm = bool(opt & 1)
        st = re.search(r"Stride<\s*(-?\d+)\s*,\s*(-?\d+)\s*>", t)
        outer, inner = (int(st.group(1)), int(st.group(2))) if st else (0, 0)
        if outer < 0 or inner < 0:
            raise Undecided("Map with run-time strides")
        inner = inner or 1
        outer = outer or (c if rowm else r) * inner
        ids = []
        for i in range(r):
            for j in range(c):
                k = p.o + (i * outer + j * inner if rowm else j * outer + i * inner)
                if k >= len(p.e) or not isinstance(p.e[k], LV):
                    raise self.broken("Map beyond its storage")
                ids.append(p.e[k].c)
        return View(r, c, ids, tt[0].startswith("Eigen::Array"))

    def matinv(self, m):
        """inverse of a square matrix of known entries (a determinant that vanishes identically: not decided)"""
        if m.r != m.c or any(not isinstance(v, Q) for v in m.v) or (m.r > 4 and sum(not v.iszero() for v in m.v) > 2 * m.r):
            return Top("matrix inverse")
        k, A = m.r, self.A
        a = [[m.v[i * k + j] for j in range(k)] + [A.const(int(i == j)) for j in range(k)] for i in range(k)]
        for c in range(k):
            p = next((i for i in range(c, k) if not a[i][c].iszero()), None)
            if p is None:
                raise Undecided("inverse of a singular matrix")
            a[c], a[p] = a[p], a[c]
            iv = a[c][c].inv()
            a[c] = [v * iv for v in a[c]]
            for i in range(k):
                if i != c and not a[i][c].iszero():
                    f = a[i][c]
                    a[i] = [v - f * w for v, w in zip(a[i], a[c])]
        return Mat(k, k, [v for i in range(k) for v in a[i][k:]])

    def havoc(self, fr, y):
        v = self.ev(fr, y)
        if isinstance(v, (LV, View)):
            t = self.P.type(fr.fn, y)
            if "const" not in t:
                try:
                    self.assign(v, Top("passed to an unknown function"))
                except Undecided:
                    pass

    def cmethod(self, fr, n, b, x, nm, args):
        if nm in ("at", "operator[]"):
            return self.index(x, self.int(self.ev(fr, args[0])))
        if nm == "size":
            return self.A.const(len(x.e))
        if nm == "empty":
            return len(x.e) == 0
        if nm in ("push_back", "emplace_back"):
            t = self.P.type(fr.fn, n["b"])
            et = targs(re.sub(r"\bconst\b|&", "", t).strip())[0] if "<" in t else ""
            v = self.ev(fr, args[0], et) if args else self.default(et, True)
            e = self.store(v)
            self.assign_raw(b, Seq_(x.e + (e,)))
            return e
        if nm == "resize":
            k = self.int(self.ev(fr, args[0]))
            t = self.P.type(fr.fn, n["b"])
            et = targs(re.sub(r"\bconst\b|&", "", t).strip())[0]
            e = list(x.e[:k])
            while len(e) < k:
                e.append(self.store(self.ev(fr, args[1])) if len(args) > 1 else self.default(et, True))
            self.assign_raw(b, Seq_(e))
            return None
        if nm in ("fill", "assign"):
            if nm == "assign" and len(args) == 2:
                k = self.int(self.ev(fr, args[0]))
                v = self.ev(fr, args[1])
                self.assign_raw(b, Seq_([self.store(v) for _ in range(k)]))
                return None
            v = self.ev(fr, args[0])
            for e in x.e:
                self.assign(e, v)
            return None
        if nm == "clear":
            self.assign_raw(b, Seq_([]))
            return None
        if nm in ("begin", "data", "cbegin"):
            return Ptr(x.e, 0)
        if nm in ("end", "cend"):
            return Ptr(x.e, len(x.e))
        if nm == "front":
            return x.e[0]
        if nm == "back":
            return x.e[-1]
        if nm in ("reserve", "shrink_to_fit"):
            return None
        if nm == "erase" and len(args) == 2:
            p, e = (self.rv(self.ev(fr, a)) for a in args)
            if isinstance(p, Ptr) and isinstance(e, Ptr) and [y.c for y in p.e] == [y.c for y in x.e] == [y.c for y in e.e]:
                self.assign_raw(b, Seq_(x.e[:p.o] + x.e[e.o:]))
                return None
        return Top("container method " + nm)

    def assign_raw(self, b, v):
        while isinstance(self.heap.get(b.c), LV):
            b = self.heap[b.c]
        self.heap[b.c] = v

    def method(self, fr, n, b, x, nm, args):
        A = self.A
        E = lambda i: self.ev(fr, args[i])

        def mk(r, c, idx, arr=x.arr, vw=None):
            return View(r, c, [x.ids[k] for k in idx], arr, vw) if isinstance(x, View) else Mat(r, c, [x.v[k] for k in idx], arr, vw)
        r, c = x.r, x.c
        full = range(r * c)
        if nm in ("operator()", "operator[]", "coeff", "coeffRef"):
            return self.slice(x, [self.idx(fr, y) for y in args])
        if nm == "array":
            return mk(r, c, full, True, x.vw)
        if nm in ("matrix", "noalias", "derived", "eval", "cast", "const_cast_derived"):
            return mk(r, c, full, False if nm == "matrix" else x.arr)
        if nm in ("transpose", "adjoint"):
            return mk(c, r, [i * c + j for j in range(c) for i in range(r)])
        if nm == "rowwise":
            return mk(r, c, full, x.arr, "row")
        if nm == "colwise":
            return mk(r, c, full, x.arr, "col")
        if nm == "diagonal":
            return mk(min(r, c), 1, [i * c + i for i in range(min(r, c))])
        if nm == "row":
            i = self.int(E(0))
            return mk(1, c, [i * c + j for j in range(c)])
        if nm == "col":
            j = self.int(E(0))
            return mk(r, 1, [i * c + j for i in range(r)])
        if nm in ("head", "tail", "segment"):
            ns = tmpl_ints(self.P.info(fr.fn, n))
            if args:
                vals = [self.int(E(i)) for i in range(len(args))]
            else:
                vals = []
            N = r * c
            if nm == "segment":
                s, k = (vals[0], vals[1] if len(vals) > 1 else ns[0])
            else:
                k = vals[0] if vals else ns[0]
                s = 0 if nm == "head" else N - k
            return mk(k, 1, range(s, s + k)) if c == 1 else mk(1, k, range(s, s + k))
        if nm in ("topRows", "bottomRows", "leftCols", "rightCols", "middleRows", "middleCols", "block", "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner"):
            ns = tmpl_ints(self.P.info(fr.fn, n))
            v = [self.int(E(i)) for i in range(len(args))]
            i0, j0, nr, ncol = 0, 0, r, c
            if nm == "topRows":
                nr = v[0] if v else ns[0]
            elif nm == "bottomRows":
                nr = v[0] if v else ns[0]
                i0 = r - nr
            elif nm == "leftCols":
                ncol = v[0] if v else ns[0]
            elif nm == "rightCols":
                ncol = v[0] if v else ns[0]
                j0 = c - ncol
            elif nm == "middleRows":
                i0, nr = v[0], v[1] if len(v) > 1 else ns[0]
            elif nm == "middleCols":
                j0, ncol = v[0], v[1] if len(v) > 1 else ns[0]
            elif nm.endswith("Corner"):
                nr, ncol = (v + ns)[:2]
                i0, j0 = (r - nr if nm.startswith("bottom") else 0), (c - ncol if "Right" in nm else 0)
            else:
                i0, j0 = v[:2]
                nr, ncol = v[2:4] if len(v) == 4 else ns[:2]
            return mk(nr, ncol, [i * c + j for i in range(i0, i0 + nr) for j in range(j0, j0 + ncol)])
        if nm in ("setZero", "setConstant", "setOnes", "setIdentity", "resize", "conservativeResize", "fill", "resizeLike"):
            t = self.P.type(fr.fn, n["b"])
            sz = list(args)
            val = None
            if nm in ("setConstant", "fill"):
                val = self.q(self.ev(fr, sz.pop()))
            if nm == "setZero":
                val = A.const(0)
            if nm == "setOnes":
                val = A.const(1)
            if sz and isinstance(x, View):
                def dim(y, cur):
                    if "NoChange" in self.P.type(fr.fn, y) or (y["k"] == "Ref" and y["n"] == "NoChange"):
                        return cur
                    return self.int(self.ev(fr, y))
                d0, d1 = mat_dims(re.sub(r"\bconst\b|&", "", t).strip())
                if nm == "resizeLike":
                    o = self.mat(self.ev(fr, sz[0]))
                    r2, c2 = o.r, o.c
                elif len(sz) == 1:
                    k = dim(sz[0], r * c)
                    r2, c2 = (1, k) if d0 == 1 else (k, 1)
                else:
                    r2, c2 = dim(sz[0], r), dim(sz[1], c)
                if (r2, c2) != (r, c):
                    ids = [self.cell(Top("uninitialised")) for _ in range(r2 * c2)]
                    if nm == "conservativeResize":
                        for i in range(min(r, r2)):
                            for j in range(min(c, c2)):
                                self.heap[ids[i * c2 + j]] = self.heap[x.ids[i * c + j]]
                    x = View(r2, c2, ids, x.arr)
                    self.assign_raw(b, x)
                    r, c = r2, c2
                elif nm == "resize":
                    pass
            if nm == "setIdentity":
                for i in range(r):
                    for j in range(c):
                        self.heap[x.ids[i * c + j]] = A.const(1 if i == j else 0)
            elif val is not None and isinstance(x, View):
                for i in x.ids:
                    self.heap[i] = val
            return b
        if nm == "swap" and len(args) == 1 and isinstance(x, View):
            y = self.rv(self.ev(fr, args[0]))
            if not isinstance(y, View) or (y.r, y.c) != (r, c):
                raise Undecided("swap of different shapes")
            for i, j in zip(x.ids, y.ids):
                self.heap[i], self.heap[j] = self.heap[j], self.heap[i]
            return None
        if nm == "transposeInPlace" and isinstance(x, View) and r == c:
            v = [self.heap[i] for i in x.ids]
            for i in range(r):
                for j in range(c):
                    self.heap[x.ids[i * c + j]] = v[j * c + i]
            return None
        m = self.mat(x)
        if nm == "lazyProduct" and isinstance(m, Mat):
            o = self.mat(E(0))
            if isinstance(o, Mat):
                return self.mop("*", m, o)
        if nm == "replicate" and not m.vw:
            v = [self.int(E(i)) for i in range(len(args))] or tmpl_ints(self.P.info(fr.fn, n))
            if len(v) == 2:
                return Mat(r * v[0], c * v[1], [m.v[(i % r) * c + j % c] for i in range(r * v[0]) for j in range(c * v[1])], m.arr)
        if nm in ("unaryExpr", "binaryExpr"):
            f = self.rv(E(len(args) - 1))
            o = self.mat(E(0)) if nm == "binaryExpr" else None
            if isinstance(f, Clo) and (o is None or isinstance(o, Mat) and len(o.v) == len(m.v)):
                return Mat(r, c, [self.q(self.apply(fr, n, f, [y] + ([o.v[k]] if o else []), None)) for k, y in enumerate(m.v)], m.arr)
        if nm in ("rows", "cols", "size"):
            return A.const({"rows": r, "cols": c, "size": r * c}[nm])
        if nm in ("squaredNorm", "norm", "stableNorm", "sum", "mean", "trace", "prod"):
            if m.vw and nm == "sum":
                if m.vw == "col":
                    return Mat(1, c, [self.sum([m.v[i * c + j] for i in range(r)]) for j in range(c)], m.arr)
                return Mat(r, 1, [self.sum([m.v[i * c + j] for j in range(c)]) for i in range(r)], m.arr)
            if m.vw and nm in ("squaredNorm", "norm"):
                vec = [[m.v[i * c + j] for i in range(r)] for j in range(c)] if m.vw == "col" else [[m.v[i * c + j] for j in range(c)] for i in range(r)]
                o = [self.sum([self.arith("*", y, y) for y in v]) for v in vec]
                if nm == "norm":
                    o = [qsqrt(y) if isinstance(y, Q) else y for y in o]
                return Mat(1, c, o, m.arr) if m.vw == "col" else Mat(r, 1, o, m.arr)
            if nm == "sum":
                return self.sum(m.v)
            if nm == "prod":
                s = A.const(1)
                for y in m.v:
                    s = self.arith("*", s, y)
                return s
            if nm == "mean":
                return self.arith("/", self.sum(m.v), A.const(len(m.v)))
            if nm == "trace":
                return self.sum([m.v[i * c + i] for i in range(min(r, c))])
            s = self.sum([self.arith("*", y, y) for y in m.v])
            return s if nm == "squaredNorm" or not isinstance(s, Q) else qsqrt(s)
        if nm == "dot":
            o = self.mat(E(0))
            if not isinstance(o, Mat):
                return Top("dot")
            if len(o.v) != len(m.v):
                raise Undecided("dot of different lengths")
            return self.sum([self.arith("*", y, z) for y, z in zip(m.v, o.v)])
        if nm in ("fullPivLu", "partialPivLu", "lu", "colPivHouseholderQr", "householderQr", "fullPivHouseholderQr", "ldlt", "llt"):
            return self.store(Rec("Eigen decomposition", {"m": self.store(m)}))
        if nm == "cross":
            o = self.mat(E(0)).v
            a = m.v
            f = lambda i, j: self.arith("-", self.arith("*", a[i], o[j]), self.arith("*", a[j], o[i]))
            return Mat(m.r, m.c, [f(1, 2), f(2, 0), f(0, 1)])
        if nm in ("abs", "cwiseAbs", "sqrt", "square", "inverse", "cwiseInverse", "cube", "exp", "log", "abs2", "cwiseAbs2"):
            if nm == "inverse" and not m.arr:
                return self.matinv(m)
            fs = {"abs": qabs, "cwiseAbs": qabs, "sqrt": qsqrt, "square": lambda z: z * z, "cube": lambda z: z * z * z, "abs2": lambda z: z * z,
                  "cwiseAbs2": lambda z: z * z, "inverse": lambda z: z.inv(), "cwiseInverse": lambda z: z.inv(),
                  "exp": lambda z: A.app("exp", [z], True), "log": lambda z: A.app("log", [z])}
            return Mat(r, c, [fs[nm](y) if isinstance(y, Q) else y for y in m.v], m.arr)
        if nm in ("cwiseProduct", "cwiseQuotient", "max", "min", "cwiseMax", "cwiseMin"):
            o = self.rv(E(0))
            ov = self.mat(o).v if isinstance(o, (Mat, View)) else [self.q(o)] * len(m.v)
            out = []
            for y, z in zip(m.v, ov):
                if not isinstance(y, Q) or not isinstance(z, Q):
                    out.append(Top(nm))
                elif nm == "cwiseProduct":
                    out.append(y * z)
                elif nm == "cwiseQuotient":
                    out.append(y / z)
                else:
                    out.append(qmax(y, z, "max" if "ax" in nm else "min"))
            return Mat(r, c, out, m.arr)
        if nm in ("maxCoeff", "minCoeff", "normalized", "stableNormalized") and not args and m.vw:
            vec = [[m.v[i * c + j] for i in range(r)] for j in range(c)] if m.vw == "col" else [[m.v[i * c + j] for j in range(c)] for i in range(r)]
            if any(not isinstance(y, Q) for y in m.v):
                return Top(nm)
            if nm.endswith("alized"):
                nr = [qsqrt(self.sum([y * y for y in v])) for v in vec]
                return Mat(r, c, [m.v[i * c + j] / (nr[j] if m.vw == "col" else nr[i]) for i in range(r) for j in range(c)], m.arr)
            o = []
            for v in vec:
                e = v[0]
                for y in v[1:]:
                    e = qmax(e, y, "max" if nm == "maxCoeff" else "min")
                o.append(e)
            return Mat(1, c, o, m.arr) if m.vw == "col" else Mat(r, 1, o, m.arr)
        if nm in ("maxCoeff", "minCoeff") and not args:
            v = m.v[0]
            for y in m.v[1:]:
                v = qmax(v, y, "max" if nm == "maxCoeff" else "min")
            return v
        if nm in ("maxCoeff", "minCoeff") and len(args) == 1:
            p = self.rv(self.ev(fr, args[0]))
            best = 0
            for k, y in enumerate(m.v):
                if not isinstance(y, Q) or not isinstance(m.v[best], Q):
                    best = None
                    break
                g = (y - m.v[best]).sign()
                if g is None:
                    best = None
                    break
                if g == (1 if nm == "maxCoeff" else -1):
                    best = k
            if isinstance(p, Ptr) and p.e is not None:
                self.assign(p.e[p.o], self.A.const(best) if best is not None else Top("position of an extremum"))
            return m.v[best] if best is not None else Top("extremum")
        if nm == "determinant":
            return self.det(m)
        if nm in ("normalize", "stableNormalize") and isinstance(x, View) and not args:
            if all(isinstance(y, Q) for y in m.v):
                nn = qsqrt(self.sum([y * y for y in m.v]))
                for i, y in zip(x.ids, m.v):
                    self.heap[i] = y / nn
                return None
        if nm in ("normalized", "stableNormalized"):
            nn = qsqrt(self.sum([y * y for y in m.v]))
            return Mat(r, c, [y / nn for y in m.v])
        if nm == "value" and r * c == 1:
            return m.v[0]
        if nm.startswith("operator ") and r * c == 1:
            return m.v[0]
        if nm in ("data",) and isinstance(x, View):
            ids = x.ids
            if r > 1 and c > 1 and not rowmajor(self.P.type(fr.fn, n["b"])):
                ids = [x.ids[i * c + j] for j in range(c) for i in range(r)]
            return Ptr([LV(i) for i in ids], 0)
        if nm in ("begin", "end", "cbegin", "cend") and isinstance(x, View) and (r == 1 or c == 1):
            return Ptr([LV(i) for i in x.ids], len(x.ids) if "end" in nm else 0)
        if nm in ("asDiagonal",):
            k = r * c
            return Mat(k, k, [m.v[i] if i == j else A.const(0) for i in range(k) for j in range(k)])
        if nm in ("allFinite", "hasNaN"):
            return nm == "allFinite"
        for y in args:
            self.havoc(fr, y)
        if isinstance(x, View):
            try:
                self.assign(x, Top("matrix method " + nm))
            except Undecided:
                pass
        return Top("matrix method " + nm)

    def det(self, m):
        if m.r == 1:
            return m.v[0]
        s = self.A.const(0)
        for j in range(m.c):
            sub = Mat(m.r - 1, m.c - 1, [m.v[i * m.c + k] for i in range(1, m.r) for k in range(m.c) if k != j])
            s = s + m.v[j] * self.det(sub) * (1 if j % 2 == 0 else -1)
        return s

    def sum(self, xs):
        s = self.A.const(0)
        for x in xs:
            s = self.arith("+", s, x)
        return s

    def apply(self, fr, n, f, args, tg):
        if isinstance(f, Clo):
            fns = [f.fn.tu.fns[i] for i in f.fns]
            cand = [self.P.fns[i["key"]] for i in fns if i and i.get("key") in self.P.fns]
            if tg and tg[0] in cand:
                cand = [tg[0]]
            elif len(cand) > 1:
                ok = [c for c in cand if tg and c.key == tg[0].key]
                cand = ok or [c for c in cand if len(c.params) == len(args)]
            if not cand:
                return Top("closure without body")
            return self.call(cand[0], args, parent=f.frame)
        if tg:
            return self.call(tg[0], args, this=f)
        return Top("call")

    def e_Call(self, fr, n, want=None):
        q = self.P.callee_q(fr.fn, n) or ""
        a = n["args"]
        if q in self.hooks:
            return self.hooks[q](self, fr, n, [self.ev(fr, x) for x in a])
        if n.get("ce") and not q:
            f = self.rv(self.ev(fr, n["ce"]))
            args = [self.ev(fr, x) for x in a]
            if callable(f):
                return f(self, fr, n, args)
            return self.apply(fr, n, f, args, self.P.targets(fr.fn, n))
        s = q.rsplit("::", 1)[-1]
        if q.startswith("Eigen::"):
            args = [self.idx(fr, x) for x in a]
            if s in ("seq",):
                st = self.int(args[2]) if len(args) > 2 else 1
                return SeqIdx(args[0], args[1], st)
            if s == "seqN":
                i0, k = self.int(args[0]), self.int(args[1])
                st = self.int(args[2]) if len(args) > 2 else 1
                return SeqIdx(self.A.const(i0), self.A.const(i0 + (k - 1) * st), st)
            t = self.P.type(fr.fn, n)
            if s in ("Zero", "Ones", "Identity", "Constant") or s in UNIT:
                r, c = mat_dims(self.P.type(fr.fn, n))
                ds = re.findall(r"Eigen::(?:Matrix|Array)<double, (-?\d+), (-?\d+)", t)
                if ds:
                    r, c = int(ds[0][0]), int(ds[0][1])
                sz = [x for x in args]
                val = self.A.const(1 if s in ("Ones",) else 0)
                if s == "Constant":
                    val = self.q(sz.pop())
                if s == "Unit":
                    sz.pop()
                if sz:
                    if len(sz) == 2:
                        r, c = self.int(sz[0]), self.int(sz[1])
                    else:
                        k = self.int(sz[0])
                        r, c = (1, k) if r == 1 else (k, 1)
                if r < 0 or c < 0:
                    return Top(s)
                if s in UNIT:
                    k = UNIT[s] if UNIT[s] is not None else self.int(args[-1])
                    bd = re.search(r", (-?\d+), (-?\d+), (?:true|false)>", t)
                    r, c = (int(bd.group(1)), int(bd.group(2))) if bd else (r, 1)
                    return Mat(r, c, [self.A.const(1 if i == k else 0) for i in range(r * c)]) if r > 0 < c else Top(s)
                return Mat(r, c, [(self.A.const(1 if i == j else 0) if s == "Identity" else val) for i in range(r) for j in range(c)])
            return Top(q)
        if q.startswith("std::") or q in MATH:
            args = [self.ev(fr, x) for x in a]
            return self.std(fr, n, q, s, args, a)
        tg = self.P.targets(fr.fn, n)
        if tg:
            args = []
            for x, pid in zip(a, tg[0].params):
                args.append(self.ev(fr, x, tg[0].tu.types[tg[0].tu.vars[pid]["t"]] if x["k"] == "InitL" else None))
            args += [self.ev(fr, x) for x in a[len(args):]]
            return self.call(tg[0], args)
        if not q and a:
            pass
        for x in a:
            self.havoc(fr, x)
        return Top("call of " + q)

    def bound_pos(self, fr, s, src, v, args, nodes):
        """position std::lower_bound / upper_bound / find returns in an ordered range, None when it is not decided"""
        if not all(isinstance(x, Q) for x in src):
            return None
        comp = lambda a, b: self.truth(self.cnd("<", a, b))
        if s == "find":
            if len(args) != 3:
                return None
            test = lambda x: self.truth(self.cnd("==", x, v))
        else:
            if len(args) == 4:
                t = self.P.type(fr.fn, nodes[3])
                f = self.rv(args[3])
                m = re.search(r"std::(less|less_equal|greater|greater_equal)<", t)
                if m:
                    op = {"less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">="}[m.group(1)]
                    comp = lambda a, b: self.truth(self.cnd(op, a, b))
                elif isinstance(f, Clo):
                    comp = lambda a, b: self.truth(self.apply(fr, None, f, [a, b], []))
                else:
                    return None
            test = (lambda x: neg3(comp(x, v))) if s == "lower_bound" else (lambda x: comp(v, x))
        for i, x in enumerate(src):
            r = test(x)
            if r is None or not isinstance(r, bool):
                return None
            if r:
                return i
        return len(src)

    def std(self, fr, n, q, s, args, nodes):
        A = self.A
        if s in ("move", "forward", "ref", "cref", "as_const"):
            return args[0]
        qs = [self.q(x) for x in args]
        if not args and s in ("max", "min", "lowest") and "numeric_limits" in q:
            t = self.P.type(fr.fn, n)
            bits = 63 if "long" in t else 31 if re.match(r"(const )?int", t) else None
            if bits and "unsigned" not in t:
                return A.const(2 ** bits - 1 if s == "max" else -2 ** bits)
            return Top("numeric_limits")
        if s in ("abs", "fabs", "sqrt", "max", "min", "pow", "exp", "log", "tanh", "sin", "cos", "tan", "atan2", "atan", "asin", "acos", "cbrt", "round", "floor", "ceil", "hypot", "log10", "sinh", "cosh"):
            if s in ("max", "min") and len(args) == 1:
                x = self.rv(args[0])
                if isinstance(x, Seq_):
                    qs = [self.q(y) for y in x.e]
            if not all(isinstance(x, Q) for x in qs):
                return next((x for x in qs if isinstance(x, Top)), Top(s))
            if s in ("abs", "fabs"):
                return qabs(qs[0])
            if s == "sqrt":
                return qsqrt(qs[0])
            if s == "hypot":
                return qsqrt(self.sum([x * x for x in qs]))
            if s in ("max", "min"):
                v = qs[0]
                for y in qs[1:]:
                    v = qmax(v, y, s)
                return v
            if s == "pow":
                if qs[1].isconst() and qs[1].constant().denominator == 1 and abs(qs[1].constant()) <= 12:
                    k = int(qs[1].constant())
                    if k < 0 and qs[0].iszero():
                        return Top("pow")
                    return qs[0] ** k
                if qs[1].isconst() and qs[1].constant() == Fraction(1, 2):
                    return qsqrt(qs[0])
                if qs[0].iszero() and qs[1].sign() == 1:
                    return qs[0]
                return A.app("pow", qs, positive=qs[0].sign() == 1)
            if s in ("round", "floor", "ceil") and qs[0].isconst():
                x = qs[0].constant()
                return A.const(math.floor(x + Fraction(1, 2)) if s == "round" else math.floor(x) if s == "floor" else math.ceil(x))
            if s in ("sin", "tan", "tanh", "sinh", "atan") and qs[0].iszero():
                return qs[0]
            if s in ("cos", "exp", "cosh") and qs[0].iszero():
                return A.const(1)
            return A.app(s, qs, positive=s in ("exp", "cosh"))
        if s in ("sort", "stable_sort") and len(args) == 2 or s == "copy" and len(args) == 3:
            p, e = self.rv(args[0]), self.rv(args[1])
            if isinstance(p, Ptr) and isinstance(e, Ptr) and p.e == e.e:
                src = [self.q(x) for x in p.e[p.o:e.o]]
                if s == "copy":
                    d = self.rv(args[2])
                    if isinstance(d, Ptr):
                        if d.o + len(src) > len(d.e):
                            raise self.broken("copy beyond its destination")
                        for x, y in zip(d.e[d.o:], src):
                            self.assign(x, y)
                        return Ptr(d.e, d.o + len(src))
                elif all(isinstance(x, Q) and x.isconst() for x in src):
                    for x, y in zip(p.e[p.o:e.o], sorted(src, key=lambda z: z.constant())):
                        self.assign(x, y)
                    return None
        if s in ("lower_bound", "upper_bound", "find") and len(args) in (3, 4):
            p, e, v = self.rv(args[0]), self.rv(args[1]), qs[2]
            if isinstance(p, Ptr) and isinstance(e, Ptr) and p.e == e.e and isinstance(v, Q):
                src = [self.q(x) for x in p.e[p.o:e.o]]
                k = self.bound_pos(fr, s, src, v, args, nodes)
                if k is not None:
                    return Ptr(p.e, p.o + k)
        if s == "unique" and len(args) == 2:
            p, e = self.rv(args[0]), self.rv(args[1])
            if isinstance(p, Ptr) and isinstance(e, Ptr) and p.e == e.e:
                src = [self.q(x) for x in p.e[p.o:e.o]]
                if all(isinstance(x, Q) and x.isconst() for x in src):
                    out = [x for i, x in enumerate(src) if i == 0 or x.constant() != src[i - 1].constant()]
                    for x, y in zip(p.e[p.o:], out):
                        self.assign(x, y)
                    return Ptr(p.e, p.o + len(out))
        if s == "clamp" and len(qs) == 3 and all(isinstance(x, Q) for x in qs):
            return qmax(qmax(qs[0], qs[1], "max"), qs[2], "min")
        if s == "accumulate" and len(args) == 3:
            p, e = self.rv(args[0]), self.rv(args[1])
            if isinstance(p, Ptr) and isinstance(e, Ptr) and [getattr(x, "c", x) for x in p.e] == [getattr(x, "c", x) for x in e.e] and isinstance(qs[2], Q):
                return self.sum([qs[2]] + [self.q(x) for x in p.e[p.o:e.o]])
        if s in ("get",):
            x = self.rv(args[0])
            ns = tmpl_ints(self.P.info(fr.fn, n))
            if isinstance(x, Seq_) and ns:
                return x.e[ns[0]]
            return Top("get")
        if s in ("make_tuple", "make_pair", "tie", "forward_as_tuple"):
            if s == "tie":
                return LV(self.cell(Seq_(args)))
            return LV(self.cell(Seq_([self.store(x) for x in args])))
        if s in ("isnan", "isinf"):
            return False
        if s == "isfinite":
            return True
        if s in ("size",):
            x = self.rv(args[0])
            if isinstance(x, Seq_):
                return A.const(len(x.e))
        if s == "swap" and len(args) == 2 and isinstance(args[0], LV) and isinstance(args[1], LV):
            self.heap[args[0].c], self.heap[args[1].c] = self.heap[args[1].c], self.heap[args[0].c]
            return None
        if s == "fill" and len(args) == 3:
            p, e = self.rv(args[0]), self.rv(args[1])
            if isinstance(p, Ptr) and isinstance(e, Ptr):
                for x in p.e[p.o:e.o]:
                    self.assign(x, args[2])
                return None
        for x in nodes:
            t = self.P.type(fr.fn, x)
            if "ostream" in t:
                continue
            self.havoc(fr, x)
        return Top("std::" + s)


UNIT = {"Unit": None, "UnitX": 0, "UnitY": 1, "UnitZ": 2, "UnitW": 3}
MATH = {"sqrt", "abs", "fabs", "pow", "exp", "log", "sin", "cos", "tan", "tanh", "round", "floor", "ceil", "cbrt", "atan2", "atan", "asin", "acos", "hypot", "log10", "sinh", "cosh"}


def neg3(x):
    return (not x) if isinstance(x, bool) else None


def neg(x):
    return -x if isinstance(x, Q) else x


def lin(m, i):
    """linear (column-major) index of an Eigen object to storage position"""
    if m.r == 1 or m.c == 1:
        return i
    return (i % m.r) * m.c + i // m.r


class _Pseudo:
    pass


_ps = {}


def pseudo(tu, file):
    if (id(tu), file) not in _ps:
        p = Fn()
        p.tu, p.file, p.q, p.name, p.key, p.line, p.params, p.body, p.inits, p.info, p.idx = tu, file, "<global>", "<global>", "<global>", 0, [], None, [], {}, -1
        _ps[(id(tu), file)] = p
    return _ps[(id(tu), file)]


def targs(t):
    """template arguments of the outermost template of a type string"""
    i = t.find("<")
    if i < 0:
        return []
    d = 0
    out, cur = [], ""
    for ch in t[i + 1:]:
        if ch == "<" or ch == "(":
            d += 1
        elif ch == ">" or ch == ")":
            if d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def mat_dims(t):
    m = re.search(r"Eigen::(?:Matrix|Array)<", t)
    if not m:
        return (-1, -1)
    a = targs(t[m.start():])
    try:
        return int(a[1]), int(a[2])
    except (ValueError, IndexError):
        return (-1, -1)


def tmpl_ints(info):
    """integer template arguments spelled in the key of a function"""
    if not info:
        return []
    k = info.get("targs") or ""
    if isinstance(k, list):
        return [int(m.group(1)) for m in (re.match(r"^\(?(?:[a-z ]+\))?(-?\d+)[uUlL]*$", str(x)) for x in k) if m]
    if not k:
        m = re.search(r"(?:get|head|tail|segment|block|topRows|bottomRows|leftCols|rightCols|middleRows|middleCols|topLeftCorner)<([^()]*)>", info.get("key") or info.get("q") or "")
        k = m.group(1) if m else ""
    return [int(x) for x in re.findall(r"(?:^|[ ,<])(-?\d+)(?=[,> ]|$)", k)]


def flatten(I, v):
    v = I.rv(v)
    if not isinstance(v, Seq_):
        return []
    out = []
    for e in v.e:
        x = I.rv(e)
        if isinstance(x, Seq_):
            out += flatten(I, x)
        else:
            out.append(e)
    return out
