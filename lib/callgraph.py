"""Call targets, including virtual overriders and callables that flow through variables."""
from prog import *

NOINVOKE = ("push_back", "emplace_back", "insert", "emplace", "make_tuple", "make_pair", "bind", "move", "forward",
            "operator=", "function", "make_shared", "make_unique", "try_emplace", "swap", "tie", "get", "ref", "cref")
CALLS = ("Call", "MCall", "OpCall", "Con")


class CallGraph:
    def __init__(self, P):
        self.P = P
        self.pts = {}
        self.ret = {}
        self._edges = []
        self._call_cache = {}
        self._collect()
        self._solve()

    def _vk(self, fn, vid):
        return ("V", id(fn.tu), vid)

    def _path(self, fn, n):
        n = strip(n)
        if n is None:
            return None
        k = n["k"]
        if k == "Ref":
            v = fn.tu.vars[n["id"]]
            if v["k"] == "binding" and "of" in v:
                return self._vk(fn, v["of"])
            if v["k"] in ("global", "smember"):
                return ("G", v.get("q"))
            return self._vk(fn, n["id"])
        if k == "Mem":
            if n["q"].startswith("std::"):
                return self._path(fn, n["b"])
            return ("F", n["q"])
        if k in ("Idx",):
            return self._path(fn, n["b"])
        if k == "Un":
            return self._path(fn, n["e"])
        if k == "MCall" and n.get("b"):
            i = self.P.info(fn, n)
            if not i or not i.get("repo"):
                return self._path(fn, n["b"])
        if k == "OpCall" and n["args"]:
            return self._path(fn, n["args"][0])
        if k == "Call":
            q = self.P.callee_q(fn, n) or ""
            if q in ("std::get", "std::move", "std::forward", "std::ref") and n["args"]:
                return self._path(fn, n["args"][0])
        return None

    def _vals(self, fn, n, out, depth=0):
        """collect sources of callable values in expression n"""
        n = strip(n)
        if n is None or depth > 6:
            return
        k = n["k"]
        if k == "Lam":
            for i in n["fns"]:
                key = fn.tu.fns[i].get("key")
                if key:
                    out.append(("K", key))
        elif k == "FRef":
            key = fn.tu.fns[n["fn"]].get("key")
            if key:
                out.append(("K", key))
        elif k in ("Ref", "Mem", "Idx", "Un"):
            p = self._path(fn, n)
            if p:
                out.append(p)
        elif k in ("Con", "InitL", "Cond", "Call", "MCall", "OpCall"):
            if k in ("Call", "MCall"):
                i = self.P.info(fn, n)
                if i and i.get("key"):
                    out.append(("R", i["key"]))
                    return
            for c in kids(n):
                self._vals(fn, c, out, depth + 1)

    def _collect(self):
        P = self.P
        E = self._edges
        for fn in P.fns.values():
            if fn.dep:
                continue
            for n in walk(fn.body):
                k = n["k"]
                if k in ("Decl", "RFor"):
                    for v in n["vars"]:
                        src = n["range"] if k == "RFor" else v.get("init")
                        if src:
                            o = []
                            self._vals(fn, src, o)
                            for s in o:
                                E.append((s, self._vk(fn, v["id"])))
                elif k == "Asg" and n["op"] == "=" or (k == "OpCall" and n["op"] == "=" and len(n["args"]) == 2):
                    a, b = (n["a"], n["b"]) if k == "Asg" else n["args"]
                    p = self._path(fn, a)
                    if p:
                        o = []
                        self._vals(fn, b, o)
                        for s in o:
                            E.append((s, p))
                elif k == "Return" and n.get("e"):
                    o = []
                    self._vals(fn, n["e"], o)
                    for s in o:
                        E.append((s, ("R", fn.key)))
                elif k == "Lam":
                    for c in n["caps"]:
                        if c.get("init"):
                            o = []
                            self._vals(fn, c["init"], o)
                            for s in o:
                                E.append((s, self._vk(fn, c["id"])))
                if k in CALLS:
                    i = P.info(fn, n)
                    args = n["args"]
                    if k == "OpCall" and i and i.get("clsT") is not None or (k == "OpCall" and i and i.get("lambda")):
                        args = args[1:]
                    tg = P.targets(fn, n)
                    if tg:
                        for t in tg:
                            for a, pid in zip(args, t.params):
                                o = []
                                self._vals(fn, a, o)
                                for s in o:
                                    E.append((s, ("V", id(t.tu), pid)))
                    elif k == "MCall" and n.get("b"):
                        p = self._path(fn, n["b"])
                        if p:
                            for a in args:
                                o = []
                                self._vals(fn, a, o)
                                for s in o:
                                    E.append((s, p))
            for it in fn.inits:
                if it.get("q") and it.get("e"):
                    o = []
                    self._vals(fn, it["e"], o)
                    for s in o:
                        E.append((s, ("F", it["q"])))

    def _solve(self):
        succ = {}
        pts = self.pts
        work = []
        for s, d in self._edges:
            if s[0] == "K":
                if s[1] not in pts.setdefault(d, set()):
                    pts[d].add(s[1])
                    work.append(d)
            else:
                succ.setdefault(s, set()).add(d)
        # indirect calls add edges lazily: iterate
        self._indirect = []
        for fn in self.P.fns.values():
            if fn.dep:
                continue
            for n in walk(fn.body):
                if n["k"] == "OpCall" and n["op"] == "()" or (n["k"] == "Call" and n.get("ce")):
                    i = self.P.info(fn, n)
                    if i and i.get("repo"):
                        continue
                    self._indirect.append((fn, n))
        while True:
            while work:
                d = work.pop()
                for e in succ.get(d, ()):
                    new = pts[d] - pts.setdefault(e, set())
                    if new:
                        pts[e] |= new
                        work.append(e)
            for fn, n in self._indirect:
                p = self._path(fn, n["args"][0] if n["k"] == "OpCall" else n["ce"])
                if not p:
                    continue
                args = n["args"][1:] if n["k"] == "OpCall" else n["args"]
                for key in list(pts.get(p, ())):
                    t = self.P.fns.get(key)
                    if not t:
                        continue
                    for a, pid in zip(args, t.params):
                        o = []
                        self._vals(fn, a, o)
                        for s in o:
                            d = ("V", id(t.tu), pid)
                            if s[0] == "K":
                                if s[1] not in pts.setdefault(d, set()):
                                    pts[d].add(s[1])
                                    work.append(d)
                            elif d not in succ.setdefault(s, set()):
                                succ[s].add(d)
                                new = pts.get(s, set()) - pts.setdefault(d, set())
                                if new:
                                    pts[d] |= new
                                    work.append(d)
            if not work:
                break

    def call(self, fn, n):
        """[(Fn, args)] possible repo targets of call node n with positional args; [] when external"""
        k = n["k"]
        ck = id(n)
        r = self._call_cache.get(ck)
        if r is not None:
            return r
        i = self.P.info(fn, n)
        args = n.get("args", [])
        if k == "OpCall" and i and (i.get("clsT") is not None or i.get("lambda")):
            args = args[1:]
        res = [(t, args) for t in self.P.targets(fn, n)]
        if not res and (k == "OpCall" and n["op"] == "()" or (k == "Call" and n.get("ce"))):
            p = self._path(fn, n["args"][0] if k == "OpCall" else n["ce"])
            a2 = n["args"][1:] if k == "OpCall" else n["args"]
            if p:
                res = [(self.P.fns[x], a2) for x in sorted(self.pts.get(p, ())) if x in self.P.fns]
        if not res and k in ("Call", "MCall") and not (i and i.get("repo")):
            nm = (i["q"] if i else "").rsplit("::", 1)[-1]
            if nm not in NOINVOKE:
                for a in args:
                    a = strip(a)
                    if a and a["k"] in ("Lam", "FRef") or (a and a["k"] == "Ref" and "lambda" in self.P.type(fn, a)):
                        o = []
                        self._vals(fn, a, o)
                        for s in o:
                            ks = [s[1]] if s[0] == "K" else self.pts.get(s, ())
                            for x in ks:
                                if x in self.P.fns:
                                    res.append((self.P.fns[x], []))
        self._call_cache[ck] = res
        return res
