"""Linear symbolic forms of integer expressions and symbolic container extents inside one function."""
from prog import *
from expr import *

SIZED = re.compile(r"^(?:std::(?:__cxx11::)?vector|Eigen::|std::array|DNDS::.*tVec|std::map|std::set)")


def fixed_size(t):
    """number of elements of a fixed-size container type, or None"""
    t = re.sub(r"\b(const|volatile)\b|&", "", t).strip()
    m = re.match(r"std::array<.*, (\d+)>$", t) or re.match(r".*\[(\d+)\]$", t)
    if m:
        return int(m.group(1))
    m = re.match(r"Eigen::Matrix<[^<>]*(?:<[^<>]*>)?[^<>]*?, (-?\d+), (-?\d+)", t)
    if m:
        a, b = int(m.group(1)), int(m.group(2))
        return a * b if a > 0 and b > 0 else None
    return None


class Sym:
    def __init__(self, P, fn):
        self.P, self.fn = P, fn
        self.scope = closure(P, fn)
        self.defs = {}      # var path -> list of (op, value node) assignments
        self.decl = {}
        self.sizes = {}     # path -> list of size-defining (kind, node)
        for f in self.scope:
            for n in walk(f.body):
                k = n["k"]
                if k == "Decl":
                    for v in n["vars"]:
                        if v.get("init"):
                            self.decl[("V", v["id"])] = (f, v["init"])
                elif k == "MCall" and n.get("b"):
                    nm = (P.callee_q(f, n) or "").rsplit("::", 1)[-1]
                    p = path(P, f, n["b"])
                    if p and nm in ("resize", "assign", "setZero", "setConstant", "setOnes", "resizeLike", "push_back", "emplace_back", "clear", "reserve", "insert", "pop_back", "conservativeResize"):
                        self.sizes.setdefault(p, []).append((nm, n, f))
            for op, a, b, n, ctx in assigns(P, f, f.body):
                p = path(P, f, a)
                if p:
                    self.defs.setdefault(p, []).append((op, b, f, a))

    def lin(self, f, n, depth=0):
        """linear form: dict atom->coef with '' the constant"""
        n = unwrap(n)
        if n is None:
            return {"?": 1}
        c = const(n)
        if c is not None:
            return {"": c} if c else {}
        k = n["k"]
        if k in ("Bin",) and n["op"] in ("+", "-"):
            a, b = self.lin(f, n["a"], depth), self.lin(f, n["b"], depth)
            s = 1 if n["op"] == "+" else -1
            r = dict(a)
            for x, v in b.items():
                r[x] = r.get(x, 0) + s * v
                if not r[x]:
                    del r[x]
            return r
        if k == "Bin" and n["op"] == "*":
            a, b = self.lin(f, n["a"], depth), self.lin(f, n["b"], depth)
            for x, y in ((a, b), (b, a)):
                if set(x) <= {""}:
                    return {q: v * x.get("", 0) for q, v in y.items() if v * x.get("", 0)}
            ka, kb = self._txt(a), self._txt(b)
            return {"*".join(sorted((ka, kb))): 1}
        if k == "Ref" and depth < 6:
            p = path(self.P, f, n)
            if p and p[0] == "V" and p in self.decl and p not in self.defs:
                g, init = self.decl[p]
                t = self.P.type(f, n)
                if re.match(r"^(const )?(unsigned )?(int|long|short|char)( long)?( const)?$", t.replace("&", "").strip()):
                    return self.lin(g, init, depth + 1)
        if k == "MCall" and n.get("b"):
            nm = (self.P.callee_q(f, n) or "").rsplit("::", 1)[-1]
            if nm in ("size", "rows"):
                e = self.extent(f, n["b"], depth + 1) if depth < 4 else None
                if e is not None and e:
                    return e[0]
                p = path(self.P, f, n["b"])
                return {"size(%s)" % (self._p(f, p) if p else show(self.P, f, n["b"])): 1}
        return {show(self.P, f, n): 1}

    def _p(self, f, p):
        return ".".join(str(x) for x in p)

    def _txt(self, l):
        return "+".join("%s*%s" % (v, k) for k, v in sorted(l.items()))

    def extent(self, f, n, depth=0):
        """list of alternative linear forms of the number of elements of container expression n; [] unknown"""
        n = strip(n)
        if n is None or depth > 5:
            return []
        fs = fixed_size(self.P.type(f, n))
        if fs:
            return [{"": fs}]
        p = path(self.P, f, n)
        if not p:
            return []
        if p[0] != "V" or len(p) != 2:
            # a member: known only by what this function does to it
            out = []
        else:
            out = []
        grow = False
        for nm, c, g in self.sizes.get(p, ()):
            a = c["args"]
            if nm in ("push_back", "emplace_back", "insert", "pop_back", "clear"):
                grow = True
            elif nm in ("resize", "conservativeResize") and a:
                if len(a) == 2 and "Eigen" in self.P.type(f, n):
                    out.append(None)
                else:
                    out.append(self.lin(g, a[0], depth + 1))
            elif nm == "assign" and len(a) == 2 and "iterator" not in self.P.type(g, a[0]) and "*" not in self.P.type(g, a[0]):
                out.append(self.lin(g, a[0], depth + 1))
            elif nm in ("setZero", "setOnes") and len(a) == 1:
                out.append(self.lin(g, a[0], depth + 1))
            elif nm == "setConstant" and len(a) == 2:
                out.append(self.lin(g, a[0], depth + 1))
            elif nm == "resizeLike" and a:
                e = self.extent(g, a[0], depth + 1)
                out.append(e[0] if e else None)
        if grow:
            return [{"size(%s)" % self._p(f, p): 1}]
        if p in self.decl and len(p) == 2:
            g, init = self.decl[p]
            i = strip(init)
            if i["k"] == "Con":
                t = self.P.type(g, i)
                a = i["args"]
                if len(a) >= 1:
                    at = self.P.type(g, strip(a[0]))
                    if re.match(r"^(const )?(unsigned )?(int|long|short)\b", at.strip()) and ("vector" in t or "Eigen" in t) and (len(a) == 1 or "vector" in t):
                        out.append(self.lin(g, a[0], depth + 1))
                    elif "vector" in at or "Eigen" in at:
                        e = self.extent(g, a[0], depth + 1)
                        out.append(e[0] if e else None)
            elif i["k"] in ("Ref", "Mem"):
                e = self.extent(g, i, depth + 1)
                out.append(e[0] if e else None)
        for op, b, g, a in self.defs.get(p, ()):
            if op == "=" and strip(a)["k"] in ("Ref", "Mem"):
                bb = strip(b) if b else None
                if bb and bb["k"] in ("Ref", "Mem"):
                    e = self.extent(g, bb, depth + 1)
                    out.append(e[0] if e else None)
        me = {"size(%s)" % self._p(f, p): 1}
        if any(o is None for o in out):
            return [me]
        out = [o for o in out if me != o and not any(k in o for k in me)]
        return out + [me]


def lindiff(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) - v
    return {k: v for k, v in r.items() if v}
