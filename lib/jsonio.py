"""Flows between JSON keys and fields: for every function that takes a JSON object, which key is read into which
field and which field is written under which key, under which switch cases / direction flag."""
from prog import *
from expr import *

OPTIONAL = ("count", "contains", "find", "is_array", "is_object", "is_null", "is_string", "is_number", "size", "empty", "dump")
WRAP = ("back", "front", "at", "get", "data", "value", "begin", "end", "head", "transpose", "array", "matrix", "eval")


def is_json(t):
    return "basic_json<" in t and "iter" not in t.split("basic_json<")[0]


def name_of(P, fn, n):
    if n["k"] in ("MCall", "Call", "OpCall"):
        q = P.callee_q(fn, n)
        if q:
            return q.rsplit("::", 1)[-1]
        ce = n.get("ce")
        if ce:
            return ce.get("n", "")
    return ""


class Flow:
    def __init__(self, P, fn):
        self.P = P
        self.fn = fn
        self.acc = []          # (dir, key, locs, cases, pol, fn, node, order)
        self.asg = []          # (loc, used locs, order, node, cases): plain assignments between fields
        self.guards = []       # (key whose presence is tested, keys read then, fn, node)
        self.order = 0
        self.keysof = {}       # local var -> keys it carries
        self.srcof = {}        # local var -> field locations it carries
        self.elem = {}         # json-typed local -> key it is the element of
        self.active = []
        env = {}
        for p in fn.params:
            v = P.var(fn, p)
            t = fn.tu.types[v["t"]]
            if is_json(t):
                env[p] = ("J", None)
            elif t.replace("const ", "").strip(" &") == "bool":
                env[p] = ("F", p)
            elif "&" in t or "*" in t:
                env[p] = ("O", ())
        self.run(fn, fn.body, env, (), ())

    # -- abstract values of expressions
    def keys(self, fn, n, env):
        """keys accessed (read) in an expression and carried by its locals"""
        out = set()
        for x in self.sub(fn, n):
            k = self.keyaccess(fn, x, env)
            if k:
                out.add(k)
            if x["k"] == "Ref":
                out |= self.keysof.get(x["id"], set())
                if x["id"] in self.elem:
                    out.add(self.elem[x["id"]])
            if x["k"] in ("Call", "MCall", "OpCall"):
                out |= self.helper(fn, x, env)
        return out

    def callargs(self, fn, n):
        """arguments of a call to a function or to a function object, and the functions it may run"""
        if n["k"] == "OpCall":
            if n["op"] != "()" or not n["args"]:
                return [], []
            a = n["args"][1:]
        else:
            a = n["args"]
        return a, [t for t in self.P.targets(fn, n) if len(t.params) == len(a)]

    def helper(self, fn, n, env):
        """keys a helper of the repository reads on behalf of its caller, the key handed over as an argument"""
        args, tg = self.callargs(fn, n)
        out = set()
        if not tg or len(self.active) > 6:
            return out
        lits = [self.lit(a, env) for a in args]
        if not any(v is not None for v in lits) and not any(self.isjobj(fn, a, env) for a in args):
            return out
        t = tg[0]
        if t.key in self.active:
            return out
        e2 = {}
        for p, a, v in zip(t.params, args, lits):
            if v is not None:
                e2[p] = ("S", v)
            elif self.isjobj(fn, a, env):
                e2[p] = ("J", None)
        self.active.append(t.key)
        for y in self.sub(t, t.body):
            k = self.keyaccess(t, y, e2)
            if k:
                out.add(k)
        self.active.pop()
        return out

    def sub(self, fn, n):
        """sub-expressions, not entering presence tests"""
        st = [n] if n else []
        while st:
            x = st.pop()
            if name_of(self.P, fn, x) in OPTIONAL:
                continue
            yield x
            st.extend(reversed(list(kids(x))))

    def lit(self, n, env):
        n = unwrap(n)
        while n and n["k"] == "Con" and n["args"]:
            n = unwrap(n["args"][0])
        if n and n["k"] == "Str":
            return n["v"]
        if n and n["k"] == "Ref" and env.get(n["id"], ("",))[0] == "S":
            return env[n["id"]][1]
        return None

    def isjobj(self, fn, n, env):
        """is the expression a JSON object we track (parameter, or local JSON value)?"""
        n = unwrap(n)
        if n is None:
            return False
        if n["k"] == "Ref":
            return env.get(n["id"], ("",))[0] == "J" or is_json(self.P.type(fn, n))
        return False

    def keyaccess(self, fn, n, env):
        P = self.P
        if n["k"] == "OpCall" and n["op"] == "[]" and len(n["args"]) == 2 and self.isjobj(fn, n["args"][0], env):
            return self.lit(n["args"][1], env)
        if n["k"] == "MCall" and name_of(P, fn, n) in ("at", "value") and n.get("b") and self.isjobj(fn, n["b"], env) and n["args"]:
            return self.lit(n["args"][0], env)
        if n["k"] == "Idx" and self.isjobj(fn, n["b"], env):
            return self.lit(n["i"], env)
        if n["k"] == "Call" and n.get("ce") and n["ce"].get("n") == "at" and n["ce"].get("c") and self.isjobj(fn, n["ce"]["c"][0], env) and n["args"]:
            return self.lit(n["args"][0], env)
        return None

    def loc(self, fn, n, env):
        """location tuple of a field expression, or None"""
        P = self.P
        n = unwrap(n)
        if n is None:
            return None
        k = n["k"]
        if k == "Mem":
            b = n.get("b")
            if b is None or unwrap(b)["k"] == "This":
                base = env.get("this", ())
            else:
                base = self.loc(fn, b, env)
            if base is None or is_json(P.type(fn, n)) and False:
                return None
            return base + (n["n"],)
        if k == "Other" and n.get("cls", "").startswith("CXXDependentScopeMember"):
            base = self.loc(fn, n["c"][0], env) if n.get("c") else ()
            return None if base is None else base + (n["n"],)
        if k == "This":
            return env.get("this", ())
        if k == "Ref":
            e = env.get(n["id"])
            if e and e[0] == "O":
                return e[1]
            return None
        if k == "OpCall" and n["op"] == "[]" or k == "Idx":
            a, i = (n["args"][0], n["args"][1]) if k == "OpCall" else (n["b"], n["i"])
            b = self.loc(fn, a, env)
            s = self.lit(i, env)
            return None if b is None else b + ((s,) if s is not None else ())
        if k == "OpCall" and n["op"] in ("*", "->") and len(n["args"]) == 1:
            return self.loc(fn, n["args"][0], env)
        if k == "Un" and n["op"] in ("*", "&"):
            return self.loc(fn, n["e"], env)
        nm = name_of(P, fn, n)
        if k == "MCall" and nm in WRAP and n.get("b"):
            b = self.loc(fn, n["b"], env)
            s = self.lit(n["args"][0], env) if n["args"] else None
            return None if b is None else b + ((s,) if s is not None else ())
        return None

    def locs(self, fn, n, env):
        """maximal field locations read in an expression plus those carried by its locals"""
        out = set()
        st = [n] if n else []
        while st:
            x = st.pop()
            if self.keyaccess(fn, x, env):
                continue
            l = self.loc(fn, x, env)
            if l:
                out.add(l)
                # still visit index expressions
                for c in kids(x):
                    if x["k"] == "OpCall" and x["op"] == "[]":
                        st.append(x["args"][1])
                        break
                continue
            if x["k"] == "Ref":
                out |= self.srcof.get(x["id"], set())
            st.extend(kids(x))
        return out

    def read(self, fn, key, loc, ctx, node):
        self.order += 1
        self.acc.append(("R", key, loc, ctx[0], ctx[1], fn, node, self.order))

    def write(self, fn, key, locs, ctx, node):
        self.order += 1
        self.acc.append(("W", key, frozenset(locs), ctx[0], ctx[1], fn, node, self.order))

    # -- statements
    def run(self, fn, n, env, cases, pol):
        P = self.P
        if n is None:
            return
        k = n["k"]
        ctx = (cases, pol)
        if n.get("m", "").startswith("DNDS_assert") or n.get("m", "").startswith("DNDS_check"):
            return
        if k == "Seq":
            for c in n.get("c", []):
                self.run(fn, c, env, cases, pol)
            return
        if k == "If":
            c = unwrap(n["cond"])
            p = None
            neg = False
            while c and c["k"] == "Un" and c["op"] == "!":
                neg = not neg
                c = unwrap(c["e"])
            if c and c["k"] == "Ref" and env.get(c["id"], ("",))[0] == "F":
                p = env[c["id"]][1]
            if p is not None:
                self.run(fn, n.get("then"), env, cases, pol + ((p, not neg),))
                if n.get("else"):
                    self.run(fn, n["else"], env, cases, pol + ((p, neg),))
                return
            self.expr(fn, n["cond"], env, ctx)
            if not neg and c and c["k"] == "MCall" and name_of(P, fn, c) in ("count", "contains") and c.get("b") and c["args"] and self.isjobj(fn, c["b"], env):
                k1 = self.lit(c["args"][0], env)
                k2 = {self.keyaccess(fn, y, env) for y in self.sub(fn, n.get("then"))} - {None}
                if k1 is not None and k2:
                    self.guards.append((k1, k2, fn, n))
            self.run(fn, n.get("then"), env, cases, pol)
            self.run(fn, n.get("else"), env, cases, pol)
            return
        if k == "Try":
            self.run(fn, n.get("body"), env, cases, pol)
            return
        if k == "Switch":
            self.switch(fn, n, env, cases, pol)
            return
        if k in ("Case", "Default"):
            for c in kids(n):
                self.run(fn, c, env, cases, pol)
            return
        if k == "RFor":
            v = n["vars"][-1] if n["vars"] else None
            ks = self.keys(fn, n["range"], env)
            ls = self.locs(fn, n["range"], env)
            if v is not None:
                rl = self.loc(fn, n["range"], env)
                if rl is not None and rl != ():
                    env = dict(env)
                    env[v["id"]] = ("O", rl)
                    self.srcof.setdefault(v["id"], set()).add(rl)
                elif self.isjobj(fn, n["range"], env):
                    env = dict(env)
                    env[v["id"]] = ("J", None)
                else:
                    self.keysof.setdefault(v["id"], set()).update(ks)
                    self.srcof.setdefault(v["id"], set()).update(ls)
            self.run(fn, n.get("body"), env, cases, pol)
            return
        if k in ("For", "While", "Do"):
            if n.get("init"):
                self.run(fn, n["init"], env, cases, pol)
            self.run(fn, n.get("body"), env, cases, pol)
            return
        if k == "Decl":
            for v in n["vars"]:
                if v.get("init"):
                    i = v["init"]
                    self.keysof.setdefault(v["id"], set()).update(self.keys(fn, i, env))
                    self.srcof.setdefault(v["id"], set()).update(self.locs(fn, i, env))
                    self.expr(fn, i, env, ctx, quiet=True)
                    l = self.loc(fn, i, env)
                    t = fn.tu.types[v["t"]]
                    if l is not None and ("&" in t or "*" in t):
                        env[v["id"]] = ("O", l)
            return
        self.expr(fn, n, env, ctx)

    def switch(self, fn, n, env, cases, pol):
        groups, cur, fall = [], None, True
        body = n.get("body")
        items = body.get("c", []) if body and body["k"] == "Seq" else [body]

        def labels(x):
            out = []
            while x and x["k"] in ("Case", "Default"):
                out.append(x)
                x = x.get("body")
            return out, x
        act = []
        live = []
        for it in items:
            if it is None:
                continue
            ls, rest = labels(it)
            if ls:
                names = [self.caselabel(fn, l) for l in ls]
                live = live + names
            if rest is not None:
                if rest["k"] == "Break":
                    live = []
                    continue
                for nm in live:
                    act.append((nm, rest))
                if rest["k"] == "Seq" and rest.get("c") and rest["c"][-1]["k"] == "Break" or rest["k"] in ("Return",):
                    live = []
        by = {}
        order = []
        for nm, st in act:
            if nm not in by:
                order.append(nm)
            by.setdefault(nm, []).append(st)
        sk = dict((a, set(b)) for a, b in self.keysof.items())
        for nm in order:
            self.keysof = dict((a, set(b)) for a, b in sk.items())
            for st in by[nm]:
                if not (st["k"] == "Seq" and not st.get("c")):
                    self.run(fn, st, dict(env), cases + (nm,), pol)
        self.switches = getattr(self, "switches", [])
        self.switches.append((fn, n, set(order) | set(live)))

    def caselabel(self, fn, c):
        if c["k"] == "Default":
            return "default"
        v = c.get("val")
        x = unwrap(v) if v else None
        while x and x["k"] in ("ICast", "Cast"):
            x = unwrap(x["e"])
        if x and x["k"] == "Ref":
            return x["n"]
        return str(const(v)) if v else "?"

    def expr(self, fn, n, env, ctx, quiet=False):
        P = self.P
        n = strip(n)
        if n is None:
            return
        k = n["k"]
        asg = None
        if k == "Asg" and n["op"] == "=":
            asg = (n["a"], n["b"])
        elif k == "OpCall" and n["op"] == "=" and len(n["args"]) == 2:
            asg = (n["args"][0], n["args"][1])
        if asg:
            a, b = asg
            ka = self.keyaccess(fn, unwrap(a), env)
            if ka:
                self.write(fn, ka, self.locs(fn, b, env), ctx, n)
                return
            ks = self.keys(fn, b, env)
            la = self.loc(fn, a, env)
            if la is not None and la != ():
                for key in sorted(self.keys(fn, a, env) - ks):
                    self.read(fn, key, None, ctx, n)       # the key selects the entry
                for key in sorted(ks):
                    self.read(fn, key, la, ctx, n)
                self.order += 1
                self.asg.append((la, frozenset(self.locs(fn, b, env)), self.order, n, ctx, fn))
                return
            pa = path(P, fn, a)
            if pa and pa[0] == "V":
                self.keysof.setdefault(pa[1], set()).update(ks)
                self.srcof.setdefault(pa[1], set()).update(self.locs(fn, b, env))
                if is_json(P.type(fn, unwrap(a))):
                    pass
            self.expr(fn, b, env, ctx)
            return
        if k == "OpCall" and n["op"] == "()" and len(n["args"]) > 1 and P.targets(fn, n):
            n = dict(n, k="Call", args=n["args"][1:], _tg=P.targets(fn, n))
            k = "Call"
        if k in ("MCall", "Call"):
            nm = name_of(P, fn, n)
            if nm in OPTIONAL:
                return
            base = n.get("b")
            if base is None and n.get("ce") and n["ce"].get("c"):
                base = n["ce"]["c"][0]
            if nm == "get_to" and base is not None and n["args"]:
                key = self.keyaccess(fn, unwrap(base), env)
                la = self.loc(fn, n["args"][0], env)
                if key and la:
                    self.read(fn, key, la, ctx, n)
                elif key:
                    pa = path(P, fn, n["args"][0])
                    if pa and pa[0] == "V":
                        self.keysof.setdefault(pa[1], set()).add(key)
                return
            if nm in ("push_back", "emplace_back", "assign", "insert", "emplace") and base is not None:
                key = self.keyaccess(fn, unwrap(base), env)
                if key:
                    s = set()
                    for a in n["args"]:
                        s |= self.locs(fn, a, env)
                    self.write(fn, key, s, ctx, n)
                    return
                la = self.loc(fn, base, env)
                if la is not None and la != ():
                    for a in n["args"]:
                        for kk in sorted(self.keys(fn, a, env)):
                            self.read(fn, kk, la, ctx, n)
                    return
            # calls that hand a JSON object on
            jargs = [(i, a) for i, a in enumerate(n["args"]) if self.isjobj(fn, a, env)]
            kargs = [(i, a, self.keyaccess(fn, unwrap(a), env)) for i, a in enumerate(n["args"]) if self.keyaccess(fn, unwrap(a), env)]
            tg = n.get("_tg") or P.targets(fn, n)
            if not jargs and tg and len(tg[0].params) == len(n["args"]) and tg[0].outer and any(self.lit(a, env) is not None for a in n["args"]):
                jargs = [(-1, None)]          # a closure over the JSON object
                base = None
            if kargs:
                lb = self.loc(fn, base, env) if base is not None else None
                others = set()
                for i, a in enumerate(n["args"]):
                    if not any(i == j for j, _, _ in kargs):
                        l = self.loc(fn, a, env)
                        if l:
                            others.add(l)
                if lb:
                    others.add(lb)
                for _, _, key in kargs:
                    for l in sorted(others):
                        if tg:
                            self.read(fn, key, l, ctx, n)
                    if tg:
                        self.write(fn, key, others, ctx, n)
                return
            if jargs and tg:
                t = tg[0]
                obj = unwrap(base) if base is not None else None
                lb = self.loc(fn, base, env) if base is not None else None
                if obj is not None and obj["k"] == "Ref" and lb is None or (lb is not None and lb != () and lb != env.get("this", ())):
                    # nested object: the JSON element belongs to another object
                    for _, a in jargs:
                        ja = unwrap(a)
                        if obj["k"] == "Ref":
                            self.keysof.setdefault(obj["id"], set()).update(self.keys(fn, a, env))
                            if ja["k"] == "Ref":
                                self.srcof.setdefault(ja["id"], set()).update(self.srcof.get(obj["id"], set()))
                                if lb:
                                    self.srcof.setdefault(ja["id"], set()).add(lb)
                        elif ja["k"] == "Ref" and lb:
                            self.srcof.setdefault(ja["id"], set()).add(lb)
                            for kk in self.keys(fn, a, env):
                                self.read(fn, kk, lb, ctx, n)
                    return
                if t.key not in self.active and len(self.active) < 6 and len(t.params) == len(n["args"]):
                    e2 = {}
                    e2["this"] = lb if lb is not None else env.get("this", ())
                    for p, a in zip(t.params, n["args"]):
                        s = self.lit(a, env)
                        ua = unwrap(a)
                        if self.isjobj(fn, a, env):
                            e2[p] = ("J", None)
                        elif s is not None:
                            e2[p] = ("S", s)
                        elif ua and ua["k"] == "Ref" and env.get(ua["id"], ("",))[0] == "F":
                            e2[p] = env[ua["id"]]
                        else:
                            l = self.loc(fn, a, env)
                            if l is not None:
                                e2[p] = ("O", l)
                            else:
                                self.keysof[p] = self.keys(fn, a, env)
                                self.srcof[p] = self.locs(fn, a, env)
                    pol = ctx[1]
                    for p, a in zip(t.params, n["args"]):
                        ua = unwrap(a)
                        if ua and ua["k"] == "Bool":
                            # constant direction: prune by binding the flag
                            e2[p] = ("F", ("const", bool(ua["v"]), p))
                    if t.outer:
                        e2 = dict(list(env.items()) + list(e2.items()))
                    self.active.append(t.key)
                    self.run(t, t.body, e2, ctx[0], pol)
                    self.active.pop()
                    for p, a in zip(t.params, n["args"]):      # results through reference parameters
                        pa = path(P, fn, a)
                        if p not in e2 and pa and pa[0] == "V" and "&" in t.tu.types[P.var(t, p)["t"]]:
                            self.keysof.setdefault(pa[1], set()).update(self.keysof.get(p, set()))
                            self.srcof.setdefault(pa[1], set()).update(self.srcof.get(p, set()))
                    return
        if k == "Bin" and n["op"] == ",":
            self.expr(fn, n["a"], env, ctx)
            self.expr(fn, n["b"], env, ctx)
            return
        if k == "Cond":
            self.expr(fn, n["c"], env, ctx)
            self.expr(fn, n["a"], env, ctx)
            self.expr(fn, n["b"], env, ctx)
            return
        for c in kids(n):
            if c["k"] not in ("Lam",):
                self.expr(fn, c, env, ctx)


def owner_of(P, fn):
    """qualified class whose fields the JSON function moves: type of the class-reference parameter, or the enclosing class"""
    for p in fn.params:
        t = fn.tu.types[P.var(fn, p)["t"]]
        if not is_json(t) and "&" in t and "std::" not in t.split("<")[0]:
            t = t.replace("const ", "").strip(" &*")
            r = P.records.get(t)
            if r:
                return r["q"]
            return re.sub(r"<.*>", "", t)
    q = fn.q.rsplit("::", 1)[0]
    return q if any(r["q"] == q for r in P.records.values()) else None


def json_functions(P):
    """(owner, fn) for every function that takes a JSON object; instantiated functions preferred over patterns"""
    out = {}
    for f in P.fns.values():
        if f.outer or not any(is_json(f.tu.types[P.var(f, p)["t"]]) for p in f.params):
            continue
        o = owner_of(P, f)
        if o is None:
            continue
        k = (o, f.file, f.line, f.name)
        if k not in out or out[k].dep and not f.dep:
            out[k] = f
    return [(k[0], f) for k, f in sorted(out.items())]
