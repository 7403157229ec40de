"""Memory effects of functions (reads and writes of caller-visible storage, with the indices used), summarised over the call graph."""
from prog import *
from expr import const

PROXY = re.compile(r"Eigen::(Map|Block|Ref|VectorBlock|IndexedView|ArrayWrapper|MatrixWrapper|Transpose|Reshaped|Diagonal|NoAlias)\b|shared_ptr<|"
                   r"AdjacencyRow|__normal_iterator|RowView|std::reference_wrapper|_Bit_reference|_iterator\b")
ARRAYS = re.compile(r"(^|::)(Array\w*|ParArray\w*|\w*ArrayPair\w*)$")
INSIDE = {"data", "array", "matrix", "back", "front", "begin", "end", "get", "transpose", "noalias", "reshaped", "diagonal", "asDiagonal", "value",
          "colwise", "rowwise", "eval", "derived", "cbegin", "cend", "adjoint", "cast", "real", "asPermutation", "triangularView", "selfadjointView",
          "matrixLU", "matrixQ", "first", "second", "find", "unaryExpr", "lower_bound", "upper_bound"}
INDEXED = {"operator[]", "operator()", "at", "row", "col", "segment", "block", "coeff", "coeffRef", "head", "tail", "topRows", "bottomRows", "leftCols", "rightCols",
           "middleRows", "middleCols", "topLeftCorner", "bottomRightCorner", "topRightCorner", "bottomLeftCorner"}
PURE = {"size", "rows", "cols", "empty", "norm", "squaredNorm", "dot", "cross", "sum", "minCoeff", "maxCoeff", "mean", "prod", "count", "capacity", "length",
        "use_count", "norm", "inverse", "determinant", "solve", "trace", "allFinite", "hasNaN", "isApprox", "what", "c_str", "str", "is_open", "good", "max", "min", "abs", "sqrt",
        "square", "cube", "pow", "normalized", "cwiseAbs", "cwiseMax", "cwiseMin", "stableNorm", "blueNorm", "any", "all", "replicate", "operator bool", "operator*", "operator->",
        "contains", "unique", "expired", "lock", "load", "innerStride", "outerStride", "cwiseProduct", "cwiseQuotient", "cwiseSqrt", "cwiseInverse", "reverse", "isZero", "sign",
        "select", "lpNorm", "redux", "binaryExpr", "exp", "log", "operator==", "operator!=", "operator<", "value_or", "has_value"}
# what these say about an array is the same for every row, or about the row given
ARRAY_META = {"Size", "RowSize", "ResizeRow", "RowSizeField", "DataStride", "RowStride", "MatRowSize", "MatColSize", "Rows", "Cols", "getMPI", "IfCompressed", "isCompressed", "Msize"}
ONE_TO_ONE = ("face2bnd", "bnd2face", "face2bndLocal", "bnd2faceV")
# which arguments (iterators, pointers or references) the library functions write through
STD_WRITES = {"sort": (0, 1), "stable_sort": (0, 1), "fill": (0,), "fill_n": (0,), "copy": (2,), "copy_n": (2,), "transform": (2, 3), "iota": (0,), "reverse": (0,),
              "swap": (0, 1), "memcpy": (0,), "memset": (0,), "unique": (0,), "remove": (0,), "remove_if": (0,), "rotate": (0,), "shuffle": (0,), "partial_sum": (2,),
              "nth_element": (0,), "partition": (0,), "swap_ranges": (0, 2), "set_intersection": (4,), "set_union": (4,), "set_difference": (4,), "merge": (4,), "generate": (0,), "memmove": (0,)}
STD_READS = {"find", "find_if", "binary_search", "lower_bound", "upper_bound", "includes", "equal", "all_of", "any_of", "none_of", "count", "count_if", "accumulate", "max_element",
             "min_element", "distance", "is_sorted", "lexicographical_compare", "is_permutation", "next", "prev", "for_each"}
SYNC = ("critical", "atomic", "single", "master", "masked", "ordered")
STREAM = re.compile(r"std::basic_(o|i|string)?\w*stream|std::ostream|basic_ostream")


def fn_pt(fn, i, j):
    p = (i or {}).get("pt", [])
    return fn.tu.types[p[j]] if j < len(p) else ""


class Effects:
    def __init__(self, P, CG):
        self.P, self.CG = P, CG
        self._sum, self._ret, self._decl = {}, {}, {}
        self.opaque = {}
        self.ncalls = 0

    # ---------------------------------------------------------------- declarations
    def decl(self, fn):
        d = self._decl.get(fn.key)
        if d is None:
            d = {"init": {}, "multi": set(), "own": set(), "pidx": {}, "for": {}}
            for i, p in enumerate(fn.params):
                vid = p["id"] if isinstance(p, dict) else p
                d["pidx"][vid] = i
                d["own"].add(vid)
            for n in walk(fn.body):
                k = n["k"]
                if k in ("Decl", "RFor"):
                    for v in n["vars"]:
                        d["own"].add(v["id"])
                        for b in v.get("binds", ()):
                            d["own"].add(b)
                        if v.get("init") and k == "Decl":
                            d["init"][v["id"]] = v["init"]
                        elif k == "RFor" and n.get("range"):
                            d["for"][v["id"]] = n["range"]
                elif k == "Asg" or k == "Un" and n["op"] in ("++", "--", "p++", "p--"):
                    t = strip(n["a"] if k == "Asg" else n["e"])
                    if t and t["k"] == "Ref":
                        d["multi"].add(t["id"])
                elif k == "For" and n.get("init"):
                    pass
            self._decl[fn.key] = d
        return d

    def vtype(self, fn, vid):
        return fn.tu.types[fn.tu.vars[vid]["t"]]

    def alias_type(self, t):
        return t.endswith("&") or t.endswith("*") or t.endswith("*const") or t.endswith("* const") or bool(PROXY.search(t))

    # ---------------------------------------------------------------- indices
    def ix(self, fn, n, depth=0):
        n = strip(n)
        if n is None or depth > 6:
            return ("?",)
        c = const(n)
        if c is not None:
            return ("c", c)
        if n["k"] == "Ref":
            return self.ixvar(fn, n["id"], depth)
        if n["k"] == "OpCall" and n["op"] in ("[]", "()") and len(n["args"]) == 2 or n["k"] == "MCall" and len(n["args"]) == 1 and (self.P.callee_q(fn, n) or "").endswith("::at"):
            b = strip(n["args"][0] if n["k"] == "OpCall" else n["b"])
            if b is not None and b["k"] in ("Mem", "Ref") and b["n"] in ONE_TO_ONE:
                a = self.ix(fn, n["args"][-1], depth + 1)
                if a[0] in ("P", "V"):
                    return ("o", a, b["n"])
        if n["k"] == "Bin" and n["op"] in ("+", "-"):
            cb = const(n["b"])
            if cb is not None:
                a = self.ix(fn, n["a"], depth + 1)
                if a[0] in ("P", "V") and cb != 0:
                    return ("o", a, cb if n["op"] == "+" else -cb)
                return a if cb == 0 else ("?",)
            ca = const(n["a"])
            if ca is not None and n["op"] == "+":
                a = self.ix(fn, n["b"], depth + 1)
                if a[0] in ("P", "V") and ca != 0:
                    return ("o", a, ca)
        return ("?",)

    def ixvar(self, fn, vid, depth=0):
        d = self.decl(fn)
        if vid in d["pidx"]:
            return ("P", d["pidx"][vid]) if vid not in d["multi"] else ("?",)
        if vid in d["init"] and vid not in d["multi"] and vid in d["own"]:
            r = self.ix(fn, d["init"][vid], depth + 1)
            if r[0] in ("P", "V", "c", "o"):
                return r
        return ("V", vid)

    # ---------------------------------------------------------------- locations
    def locvar(self, fn, vid, depth=0):
        v = fn.tu.vars[vid]
        k = v["k"]
        if v.get("tls"):
            return []
        if k in ("global", "smember", "slocal"):
            return [(("G", v.get("q") or v["n"]), ())]
        if k == "enum":
            return []
        d = self.decl(fn)
        if k == "binding":
            if "of" in v:
                return [(r, s + ("#%s" % v.get("idx", "?"),)) for r, s in self.locvar(fn, v["of"], depth + 1)]
            return []
        t = self.vtype(fn, vid)
        if vid in d["pidx"]:
            return [(("P", d["pidx"][vid]), ())] if self.alias_type(t) else [(("V", vid), ())]
        if vid in d["init"] and self.alias_type(t) and depth < 12:
            return self.loc(fn, d["init"][vid], depth + 1)
        if vid in d["for"] and self.alias_type(t) and depth < 12:
            return [(r, s + (("[", ("?",)),)) for r, s in self.loc(fn, d["for"][vid], depth + 1)]
        return [(("V", vid), ())]

    def loc(self, fn, n, depth=0):
        P = self.P
        n = strip(n)
        if n is None or depth > 14:
            return []
        k = n["k"]
        if k == "Ref":
            return self.locvar(fn, n["id"], depth)
        if k == "This":
            return [(("T",), ())]
        if k == "Mem":
            b = self.loc(fn, n["b"], depth + 1) if n.get("b") else [(("T",), ())]
            if n.get("fn") is not None:
                return b
            return [(r, s + (n["n"],)) for r, s in b]
        if k == "Idx":
            i = ("[", self.ix(fn, n["i"]))
            return [(r, s + (i,)) for r, s in self.loc(fn, n["b"], depth + 1)]
        if k == "Un" and n["op"] in ("&", "*", "++", "--", "p++", "p--"):
            return self.loc(fn, n["e"], depth + 1)
        if k == "Bin" and n["op"] in ("+", "-"):
            if P.type(fn, n).endswith("*"):
                i = ("[", self.ix(fn, n["b"]))
                return [(r, s + (i,)) for r, s in self.loc(fn, n["a"], depth + 1)]
            return []
        if k == "Cond":
            return self.loc(fn, n["a"], depth + 1) + self.loc(fn, n["b"], depth + 1)
        if k == "Con":
            if n["args"] and (PROXY.search(P.type(fn, n)) or len(n["args"]) == 1 and self.alias_type(P.type(fn, n))):
                return self.loc(fn, n["args"][0], depth + 1)
            return []
        if k == "InitL" and len(n.get("c", [])) == 1:
            return self.loc(fn, n["c"][0], depth + 1)
        if k == "Asg":
            return self.loc(fn, n["a"], depth + 1)
        if k in ("Call", "MCall", "OpCall"):
            return self.calloc(fn, n, depth)
        return []

    def split(self, fn, n):
        """(name, base node or None, argument nodes) of a call"""
        q = self.P.callee_q(fn, n) or ""
        nm = q.rsplit("::", 1)[-1] if not q.endswith("operator()") else "operator()"
        if n["k"] == "MCall":
            return nm, n.get("b"), n["args"]
        if n["k"] == "OpCall":
            i = self.P.info(fn, n)
            meth = bool(i and "const" in i)
            if meth or n["op"] in ("[]", "()", "->", "*", "=", "<<"):
                return "operator" + n["op"], n["args"][0] if n["args"] else None, n["args"][1:]
            return "operator" + n["op"], None, n["args"]
        return nm, None, n["args"]

    def is_array(self, q):
        c = re.sub(r"<.*", "", q.rsplit("::", 1)[0])
        return bool(ARRAYS.search(c))

    def calloc(self, fn, n, depth):
        P = self.P
        nm, b, args = self.split(fn, n)
        q = P.callee_q(fn, n) or ""
        if b is not None:
            if nm in ("operator->", "operator*") and n["k"] == "OpCall" and len(n["args"]) == 1:
                return self.loc(fn, b, depth + 1)
            if nm in ("operator=", "operator+=", "operator-=", "operator*=", "operator/="):
                return self.loc(fn, b, depth + 1)
            i = P.info(fn, n)
            if nm in ("operator[]", "operator()", "at") and (not i or not i.get("repo") or self.is_array(q)) and not (i and i.get("lambda")):
                if args:
                    s1 = ("[",) + tuple(self.ix(fn, a) for a in args)
                    return [(r, s + (s1,)) for r, s in self.loc(fn, b, depth + 1)]
                return self.loc(fn, b, depth + 1)
            if not i or not i.get("repo"):
                if nm in INSIDE:
                    return self.loc(fn, b, depth + 1)
                if nm in INDEXED:
                    s1 = ("[", self.ix(fn, args[0])) if args else None
                    return [(r, s + ((s1,) if s1 else ())) for r, s in self.loc(fn, b, depth + 1)]
                return []
        elif q in ("std::get", "std::move", "std::forward", "std::ref", "std::cref", "std::as_const", "std::dynamic_pointer_cast", "std::static_pointer_cast",
                   "std::begin", "std::end", "std::addressof"):
            if not args:
                return []
            extra = ()
            if q == "std::get":
                i = P.info(fn, n)
                extra = ("#" + str((i.get("targs") or ["?"])[0]),) if i else ()
            return [(r, s + extra) for r, s in self.loc(fn, args[0], depth + 1)]
        t = P.type(fn, n)
        i = P.info(fn, n)
        if i and "ret" in i:
            t = fn.tu.types[i["ret"]]
        if not self.alias_type(t):
            return []
        out = []
        for tg in P.targets(fn, n):
            for r, s in self.ret(tg, depth):
                out += self.subst(fn, n, b, args, tg, r, s, depth)
        return out[:6]

    def ret(self, fn, depth=0):
        if fn.key in self._ret:
            return self._ret[fn.key]
        self._ret[fn.key] = []
        out = []
        if fn.body and not fn.dep:
            for n in walk(fn.body):
                if n["k"] == "Return" and n.get("e"):
                    for l in self.loc(fn, n["e"], 0):
                        if l[0][0] in ("P", "T", "G") and l not in out:
                            out.append(l)
        self._ret[fn.key] = out[:6]
        return self._ret[fn.key]

    def sub_ix(self, fn, n, args, i, tg):
        if i[0] == "P":
            return self.ix(fn, args[i[1]]) if i[1] < len(args) else ("?",)
        if i[0] == "o":
            b = self.sub_ix(fn, n, args, i[1], tg)
            return ("o", b, i[2]) if b[0] in ("P", "V") else ("?",)
        if i[0] == "V":
            if tg.tu is not fn.tu:
                return ("?",)
            return self.ixvar(fn, i[1]) if i[1] in self.decl(fn)["own"] or fn.info.get("lambda") else ("V", i[1])
        return i

    def subst(self, fn, n, b, args, tg, r, s, depth=0):
        s2 = []
        for x in s:
            if isinstance(x, tuple):
                x = ("[",) + tuple(self.sub_ix(fn, n, args, i, tg) for i in x[1:])
            s2.append(x)
        s2 = tuple(s2)
        if r[0] == "P":
            if r[1] >= len(args):
                return []
            base = self.loc(fn, args[r[1]], depth + 1)
        elif r[0] == "T":
            if tg.info.get("lambda"):
                base = [(("T",), ())]
            elif b is None:
                base = [(("T",), ())] if n["k"] == "MCall" else []
            else:
                base = self.loc(fn, b, depth + 1)
        elif r[0] == "V":
            if tg.tu is not fn.tu:
                base = [(("X", tg.tu.vars[r[1]]["n"], id(tg.tu), r[1]), ())]
            elif r[1] in self.decl(fn)["own"] or fn.info.get("lambda"):
                base = self.locvar(fn, r[1], depth + 1)
            else:
                base = [(r, ())]
        else:
            base = [(r, ())]
        return [(br, (bs + s2)[:10]) for br, bs in base]

    # ---------------------------------------------------------------- effects
    def summary(self, fn):
        k = fn.key
        if k in self._sum:
            return self._sum[k]
        self._sum[k] = {}
        out = {}
        if fn.body and not fn.dep:
            raw = []
            for ini in fn.inits or ():
                if isinstance(ini, dict) and ini.get("e"):
                    self.ev(fn, ini["e"], raw, None)
            self.ev(fn, fn.body, raw, None)
            own = self.decl(fn)["own"]
            for mode, r, s, g, f2, node, _ in raw:
                if r[0] == "V" and r[1] in own:
                    continue
                s = tuple(self.export(fn, own, x) for x in s)
                kk = (mode, r, s, g)
                if kk not in out and len(out) < 4000:
                    out[kk] = (f2, node)
        self._sum[k] = out
        return out

    def export(self, fn, own, x):
        if not isinstance(x, tuple):
            return x

        def e(i):
            if i[0] == "V" and i[1] in own:
                return ("?",)
            if i[0] == "o" and i[1][0] == "V" and i[1][1] in own:
                return ("?",)
            return i
        return ("[",) + tuple(e(i) for i in x[1:])

    def emit(self, out, mode, locs, g, fn, n):
        for r, s in locs:
            out.append((mode, r, s, g, fn, n, None))

    def read(self, fn, n, out, g):
        """evaluate an expression for its value"""
        self.ev(fn, n, out, g)

    def ev(self, fn, n, out, g, want="r"):
        """want: r value, w written, n neither (address or prefix only)"""
        P = self.P
        if n is None:
            return
        if n.get("m", "").startswith("DNDS_assert"):
            return
        k = n["k"]
        if k in ("ICast", "Cast"):
            return self.ev(fn, n["e"], out, g, want)
        if k == "OMP":
            d = n.get("dir", "")
            g2 = g
            if any(x in d for x in SYNC):
                g2 = d + ":" + (n.get("name") or "")
            if n.get("body"):
                self.ev(fn, n["body"], out, g2)
            return
        if k == "Lam":
            for c in n["caps"]:
                if c.get("init"):
                    self.ev(fn, c["init"], out, g)
            return
        if k in ("Ref", "Mem", "Idx"):
            if k == "Mem" and n.get("fn") is not None:
                return
            if want in ("r", "w"):
                self.emit(out, want, self.loc(fn, n), g, fn, n)
            if k == "Mem" and n.get("b"):
                self.ev(fn, n["b"], out, g, "n")
            if k == "Idx":
                self.ev(fn, n["b"], out, g, "n")
                self.ev(fn, n["i"], out, g)
            return
        if k == "Asg":
            self.ev(fn, n["b"], out, g)
            self.ev(fn, n["a"], out, g, "w")
            if n["op"] != "=":
                self.emit(out, "r", self.loc(fn, n["a"]), g, fn, n)
            return
        if k == "Un":
            if n["op"] in ("++", "--", "p++", "p--"):
                self.ev(fn, n["e"], out, g, "w")
                self.emit(out, "r", self.loc(fn, n["e"]), g, fn, n)
            elif n["op"] == "*":
                if want in ("r", "w"):
                    self.emit(out, want, self.loc(fn, n["e"]), g, fn, n)
                self.ev(fn, n["e"], out, g, "n")
            elif n["op"] == "&":
                self.ev(fn, n["e"], out, g, "n")
            else:
                self.ev(fn, n["e"], out, g)
            return
        if k in ("Call", "MCall", "OpCall", "Con"):
            return self.call(fn, n, out, g, want)
        if k in ("Decl", "RFor"):
            if k == "RFor" and n.get("range"):
                self.ev(fn, n["range"], out, g)
            for v in n["vars"]:
                if v.get("init"):
                    self.ev(fn, v["init"], out, g, "n" if self.alias_type(self.vtype(fn, v["id"])) else "r")
            if n.get("body"):
                self.ev(fn, n["body"], out, g)
            return
        if k == "Return" and n.get("e"):
            i = fn.info
            t = fn.tu.types[i["ret"]] if i and "ret" in i else ""
            return self.ev(fn, n["e"], out, g, "n" if self.alias_type(t) else "r")
        if k == "Cond":
            self.ev(fn, n["c"], out, g)
            self.ev(fn, n["a"], out, g, want)
            self.ev(fn, n["b"], out, g, want)
            return
        for c in kids(n):
            self.ev(fn, c, out, g)

    def call(self, fn, n, out, g, want):
        P = self.P
        self.ncalls += 1
        i = P.info(fn, n)
        q = (i or {}).get("q") or ""
        if n["k"] == "Con":
            nm, b, args = "ctor", None, n["args"]
        else:
            nm, b, args = self.split(fn, n)
        pt = [fn.tu.types[t] for t in (i or {}).get("pt", [])]
        # stream output
        if nm in ("operator<<", "operator>>"):
            first = n["args"][0] if n["k"] == "OpCall" else b
            t = P.type(fn, strip(first)) if first is not None else ""
            if STREAM.search(t) or "stream" in t or (first is not None and "ostream" in P.type(fn, n)):
                for a in n["args"]:
                    self.ev(fn, a, out, g, "r" if not STREAM.search(P.type(fn, strip(a)) or "") else "n")
                return
            if "Eigen::" in t or "Eigen::" in P.type(fn, n):
                self.emit(out, "w", self.loc(fn, self.comma_base(fn, first)), g, fn, n)
                self.ev(fn, first, out, g, "n")
                for a in n["args"][1:]:
                    self.ev(fn, a, out, g)
                return
        repo = bool(i and i.get("repo"))
        if nm == "operator()" and b is not None:
            bb = strip(b)
            if bb is not None and bb["k"] == "Ref" and bb["id"] in self.decl(fn)["pidx"] and not self.is_array(q) and (repo or "std::function" in q):
                for j, a in enumerate(args):
                    self.arg(fn, a, fn_pt(fn, i, j), out, g)
                return
        targets = []
        if repo and b is not None and self.is_array(q) and nm in ARRAY_META:
            self.ev(fn, b, out, g, "n")
            for a in args:
                self.ev(fn, a, out, g)
            if nm == "ResizeRow":
                s1 = ("[", self.ix(fn, args[0]))
                self.emit(out, "w", [(r, s + (s1, "<size>")) for r, s in self.loc(fn, b)], g, fn, n)
            elif nm == "RowSize" and args:
                s1 = ("[", self.ix(fn, args[0]))
                self.emit(out, "r", [(r, s + (s1, "<size>")) for r, s in self.loc(fn, b)], g, fn, n)
            return
        if not (repo and nm in ("operator[]", "operator()", "at") and self.is_array(q)):
            targets = [t for t in P.targets(fn, n)]
            if not targets and (not repo or nm == "operator()") and not q.startswith("Eigen::"):
                try:
                    targets = [t[0] for t in self.CG.call(fn, n)]
                except Exception:
                    targets = []
                if repo or nm == "operator()":
                    pass
                else:
                    # an external function that may call back: the callables handed to it run
                    targets2 = targets
                    targets = []
                    for tg in targets2:
                        if tg.info.get("lambda") or True:
                            self.apply(fn, n, None, [], tg, out, g, drop=True)
        if targets:
            if b is not None:
                self.ev(fn, b, out, g, "n")
            for t in targets:
                self.apply(fn, n, b, args, t, out, g)
            for j, a in enumerate(args):
                p = pt[j] if j < len(pt) else ""
                self.ev(fn, a, out, g, "n" if self.alias_type(p) or PROXY.search(p) else "r")
                for tg in self.lams(fn, a):
                    self.apply(fn, n, None, [], tg, out, g, drop=True)
            return
        # external or primitive
        if b is not None:
            isconst = bool(i and i.get("const"))
            if nm in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=", "operator|=", "operator&=", "operator++", "operator--", "operator%=", "operator<<="):
                self.ev(fn, b, out, g, "w")
                if b is not None and strip(b)["k"] not in ("Ref", "Mem", "Idx"):
                    pass
                for a in args:
                    self.ev(fn, a, out, g)
                if nm != "operator=":
                    self.emit(out, "r", self.loc(fn, b), g, fn, n)
                return
            if nm in INDEXED or nm in INSIDE or nm in ("operator->", "operator*"):
                bt = P.type(fn, strip(b)) or ""
                if nm == "operator[]" and re.search(r"std::(unordered_)?map<", bt) and not isconst and not self.probed(fn, b):
                    self.emit(out, "w", self.loc(fn, b), g, fn, n)
                elif want in ("r", "w"):
                    if want == "w" and "vector<bool" in bt:
                        self.emit(out, "w", [(r, s + ("<bits>",)) for r, s in self.loc(fn, b)], g, fn, n)
                    self.emit(out, want, self.loc(fn, n), g, fn, n)
                self.ev(fn, b, out, g, "n")
                for a in args:
                    self.ev(fn, a, out, g)
                return
            if isconst or nm in PURE or nm.startswith("cwise"):
                self.ev(fn, b, out, g)
            else:
                self.ev(fn, b, out, g, "w")
                if want == "w" or True:
                    l = self.loc(fn, b)
                    self.emit(out, "w", l, g, fn, n)
            for j, a in enumerate(args):
                self.arg(fn, a, pt[j] if j < len(pt) else "", out, g)
            return
        if q in ("std::get", "std::move", "std::forward", "std::ref", "std::as_const", "std::begin", "std::end", "std::addressof", "std::dynamic_pointer_cast"):
            if want in ("r", "w"):
                self.emit(out, want, self.loc(fn, n), g, fn, n)
            for a in args:
                self.ev(fn, a, out, g, "n")
            return
        if q.startswith("std::") and (n["k"] == "Con" or nm in STD_WRITES or nm in STD_READS):
            wr = STD_WRITES.get(nm, ())
            for j, a in enumerate(args):
                if j in wr:
                    self.emit(out, "w", self.loc(fn, a), g, fn, a)
                if j in wr or not self.lams(fn, a):
                    self.ev(fn, a, out, g, "n" if j in wr else "r")
                else:
                    self.arg(fn, a, "const", out, g)
            return
        pure = q.startswith("Eigen::") or q in ("std::max", "std::min", "std::abs", "std::sqrt", "std::pow", "std::make_tuple", "std::make_pair", "std::make_shared",
                                                  "std::forward_as_tuple", "std::isfinite", "std::isnan", "fmt::format")
        for j, a in enumerate(args):
            self.arg(fn, a, "const" if pure else (pt[j] if j < len(pt) else "const"), out, g)

    def lams(self, fn, a, depth=0):
        """closures that an argument hands over"""
        a = strip(a)
        if a is None or depth > 4:
            return []
        if a["k"] == "Lam":
            return [t for t in (self.P.fns.get(fn.tu.fns[fi].get("key")) for fi in a["fns"]) if t is not None]
        if a["k"] == "Ref":
            i = self.decl(fn)["init"].get(a["id"])
            return self.lams(fn, i, depth + 1) if i is not None else []
        if a["k"] == "Con" and len(a["args"]) == 1:
            return self.lams(fn, a["args"][0], depth + 1)
        if a["k"] == "Cond":
            return self.lams(fn, a["a"], depth + 1) + self.lams(fn, a["b"], depth + 1)
        return []

    def probed(self, fn, b):
        """the function asks the map for the key before it indexes it, so that the indexing does not insert"""
        l = self.loc(fn, b)
        for x in walk(fn.body):
            if x["k"] == "MCall" and (self.P.callee_q(fn, x) or "").rsplit("::", 1)[-1] in ("count", "find", "contains") and x.get("b") and self.loc(fn, x["b"]) == l:
                return True
        return False

    def comma_base(self, fn, n):
        return n

    def arg(self, fn, a, p, out, g):
        ls = self.lams(fn, a)
        if ls:
            for tg in ls:
                self.apply(fn, a, None, [], tg, out, g, drop=True)
            return
        nonconst = (p.endswith("&") or p.endswith("*")) and not re.match(r"const\b|.*\bconst ?[&*]$", p) and not p.endswith("&&")
        if nonconst:
            self.emit(out, "w", self.loc(fn, a), g, fn, a)
            self.ev(fn, a, out, g, "n")
        else:
            self.ev(fn, a, out, g)

    def apply(self, fn, n, b, args, tg, out, g, drop=False):
        """the effects of a call of tg"""
        ctor = n["k"] == "Con"
        for (mode, r, s, g2), (f2, node) in list(self.summary(tg).items()):
            if drop and r[0] == "P":
                continue
            if r[0] == "T" and ctor:
                continue
            for r3, s3 in self.subst(fn, n, b, args, tg, r, s):
                out.append((mode, r3, s3, g2 or g, f2, node, tg.key if r[0] == "V" else None))
