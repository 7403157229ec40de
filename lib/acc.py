"""How the local contribution to a reduction is built: accumulation kind, start value, iteration range."""
from prog import *
from expr import *

MINMAX = {"min": "MIN", "fmin": "MIN", "cwiseMin": "MIN", "max": "MAX", "fmax": "MAX", "cwiseMax": "MAX"}
RESET = {"setZero": 0.0, "setConstant": None, "setOnes": 1.0, "fill": None, "assign": None}
OWNED_BAD = ("NumCellProc", "NumNodeProc", "NumFaceProc", "NumBndProc")


def gconst(P, fn, n):
    """constant value, looking through const globals"""
    n = unwrap(n)
    c = const(n)
    if c is not None:
        return c
    if n and n["k"] == "Un" and n["op"] == "-":
        x = gconst(P, fn, n["e"])
        return None if x is None else -x
    if n and n["k"] == "Ref":
        v = fn.tu.vars[n["id"]]
        if v["k"] in ("global", "smember"):
            g = P.globals.get(v.get("q"))
            if g and g["d"].get("init") and "const" in g["_tu"].types[g["d"]["t"]]:
                return gconst_init(P, g)
    if n and n["k"] in ("Call",):
        q = P.callee_q(fn, n) or ""
        if "numeric_limits" in q:
            if q.endswith("::max") or q.endswith("infinity"):
                return 1e308
            if q.endswith("lowest"):
                return -1e308
            if q.endswith("::min"):
                return -1e308 if "long" in q or "int" in q else 1e-308
    return None


def gconst_init(P, g):
    class F:
        pass
    f = F()
    f.tu = g["_tu"]
    n = g["d"]["init"]
    c = const(n)
    if c is None:
        n = unwrap(n)
        if n and n["k"] == "Flt":
            c = float(n["v"])
    return c


class Acc:
    """accumulations into one storage path of a function (and of the helpers it is handed to)"""

    def __init__(self, P, CG, fn, p, depth=0, seen=None, before=None):
        self.P, self.CG = P, CG
        self.kinds = []      # (kind, fn, node, ctx)
        self.inits = []      # (value or None, fn, node)  value 'expr' for non constants
        self.sizes = []      # init expressions that are entity counts
        self.unknown = False
        seen = seen or set()
        if (fn.key, p) in seen or depth > 4:
            return
        seen.add((fn.key, p))
        self._scan(fn, p, depth, seen)

    def _scan(self, fn, p, depth, seen):
        P = self.P
        for f in closure(P, fn):
            for n, ctx in walkctx(f.body):
                k = n["k"]
                if k == "Decl":
                    for v in n["vars"]:
                        if ("V", v["id"]) == p and v.get("init"):
                            self._init(f, v["init"], n, depth, seen)
                elif k == "MCall" and n.get("b"):
                    nm = (P.callee_q(f, n) or "").rsplit("::", 1)[-1]
                    if path(P, f, n["b"]) == p and nm in RESET:
                        val = RESET[nm]
                        if val is None:
                            a = n["args"]
                            val = gconst(P, f, a[-1]) if a else None
                        self.inits.append((val, f, n))
                    self._calls(f, n, p, depth, seen)
                elif k in ("Call", "OpCall", "Con"):
                    self._calls(f, n, p, depth, seen)
            for op, a, b, n, ctx in assigns(P, f, f.body):
                if path(P, f, a) == p:
                    self._assign(f, op, a, b, n, ctx, p, depth, seen)

    def _init(self, f, e, n, depth, seen):
        c = gconst(self.P, f, e)
        if c is not None:
            self.inits.append((c, f, n))
            return
        u = unwrap(e)
        if u["k"] in ("Call", "MCall"):
            nm = (self.P.callee_q(f, u) or "").rsplit("::", 1)[-1]
            if nm in ("Size", "size", "NumCell", "NumNode", "NumFace", "NumBnd"):
                self.sizes.append((f, u))
                return
            tg = self.CG.call(f, u) if self.CG else []
            if len(tg) == 1 and tg[0][0].info.get("repo"):
                t = tg[0][0]
                for r in walk(t.body):
                    if r["k"] == "Return" and r.get("e"):
                        q = path(self.P, t, r["e"])
                        if q and q[0] == "V":
                            self._merge(Acc(self.P, self.CG, t, q, depth + 1, seen))
                return
            self.inits.append(("expr", f, n))
            return
        q = path(self.P, f, u)
        if q and q[0] in ("V", "T") and u["k"] in ("Ref", "Mem"):
            v = q
            if q[0] == "V" and q[1] in f.params:
                self.inits.append(("expr", f, n))
                return
            self._merge(Acc(self.P, self.CG, f, q, depth + 1, seen))
            return
        if u["k"] in ("Con", "InitL") and not (u.get("args") or u.get("c")):
            if u["k"] == "InitL":
                self.inits.append((0, f, n))
            return
        self.inits.append(("expr", f, n))

    def _merge(self, o):
        self.kinds += o.kinds
        self.inits += o.inits
        self.sizes += o.sizes

    def _assign(self, f, op, a, b, n, ctx, p, depth, seen):
        P = self.P
        if op in ("+=", "++", "-=", "--"):
            self.kinds.append(("SUM", f, n, ctx))
        elif op == "*=" or op == "/=":
            self.kinds.append(("SCALE", f, n, ctx))
        elif op == "|=":
            self.kinds.append(("ANY", f, n, ctx))
        elif op == "&=":
            self.kinds.append(("ALL", f, n, ctx))
        elif op == "=":
            if b is not None and contains_path(P, f, b, p):
                self.kinds.append((self._selfkind(f, b, p), f, n, ctx))
                return
            for c in reversed(ctx):
                if c["k"] == "If":
                    d = self._cmpkind(f, c["cond"], p)
                    if d:
                        if self._in(n, c.get("else")):
                            d = {"MIN": "MAX", "MAX": "MIN"}[d]
                        self.kinds.append((d, f, n, ctx))
                        return
            cv = gconst(P, f, b)
            inloop = any(c["k"] in ("For", "RFor", "While", "Do") for c in ctx)
            cond = any(c["k"] == "If" for c in ctx)
            if cv is not None and cond and inloop and P.type(f, a).replace("&", "").strip() in ("int", "bool", "long"):
                self.kinds.append(("FLAG%d" % int(cv), f, n, ctx))
            elif not inloop and strip(a)["k"] in ("Ref", "Mem"):
                self._init(f, b, n, depth, seen)
            else:
                self.kinds.append(("SET", f, n, ctx))

    def _in(self, n, root):
        return root is not None and any(x is n for x in walk(root))

    def _selfkind(self, f, b, p):
        b = strip(b)
        P = self.P
        for x in walk(b):
            if x["k"] in ("Call", "MCall"):
                nm = (P.callee_q(f, x) or "").rsplit("::", 1)[-1]
                if nm in MINMAX:
                    ks = list(x["args"]) + ([x["b"]] if x.get("b") else [])
                    if any(contains_path(P, f, y, p) for y in ks):
                        return MINMAX[nm]
        u = unwrap(b)
        if u["k"] == "Bin" and u["op"] == "||":
            return "ANY"
        if u["k"] == "Bin" and u["op"] == "&&":
            return "ALL"
        if u["k"] == "Cond":
            d = self._cmpkind(f, u["c"], p)
            if d:
                # (x < v) ? x : v
                if contains_path(P, f, u["a"], p):
                    d = {"MIN": "MAX", "MAX": "MIN"}[d]
                return d
            return "?"
        for x in walk(b):
            if (x["k"] == "Bin" and x["op"] == "+") or (x["k"] == "OpCall" and x["op"] == "+"):
                return "SUM"
        return "?"

    def _cmpkind(self, f, c, p):
        """condition 'v < path' -> assignments under it build a MIN"""
        for x in walk(c):
            if x["k"] == "Bin" and x["op"] in ("<", "<=", ">", ">="):
                l, r = path(self.P, f, x["a"]) == p, path(self.P, f, x["b"]) == p
                if l == r:
                    continue
                lt = x["op"] in ("<", "<=")
                return ("MIN" if lt else "MAX") if r else ("MAX" if lt else "MIN")
        return None

    def _calls(self, f, n, p, depth, seen):
        """path handed by reference to a repository function"""
        if not self.CG:
            return
        q = self.P.callee_q(f, n) or ""
        if q.startswith("DNDS::MPI::") or q.startswith("MPI_"):
            return
        tg = self.CG.call(f, n)
        for t, args in tg[:4]:
            for a, pid in zip(args, t.params):
                aa = strip(a)
                if aa and aa["k"] in ("Ref", "Mem") and path(self.P, f, aa) == p:
                    ty = t.tu.types[t.tu.vars[pid]["t"]]
                    if ty.endswith("&") and not ty.startswith("const"):
                        self._merge(Acc(self.P, self.CG, t, ("V", pid), depth + 1, seen))


def walkctx(root):
    st = [(root, ())]
    while st:
        n, c = st.pop()
        yield n, c
        c2 = c + (n,)
        for k in reversed(list(kids(n))):
            st.append((k, c2))


def loop_bound(n):
    """(upper bound expression) of a counted loop"""
    c = n.get("cond")
    if n["k"] == "For" and c and c["k"] == "Bin" and c["op"] in ("<", "<=", "!="):
        return c["b"]
    return None
