"""Serializer traffic of a function: every key that is written or read through a SerializerBase, with its full path, type,
guards and the object fields it carries, obtained by inlining the helpers that are handed the serializer."""
from prog import *
from expr import *
import re

SER = "DNDS::Serializer::Serializer"


def is_ser_type(t):
    return "Serializer::Serializer" in (t or "")


class Ev:
    def __init__(self, **k):
        self.__dict__.update(k)


class Frame:
    def __init__(self, fn, this, fid):
        self.fn, self.this, self.fid = fn, this, fid
        self.env = {}


class Bad(Exception):
    pass


class Tracer:
    def __init__(self, P, CG):
        self.P, self.CG = P, CG

    def run(self, fn):
        self.events, self.problems = [], []
        self.cur = ()
        self.guards = []
        self.offs = {}
        self.nf = 0
        self.stack = []
        self.frames = []
        f = Frame(fn, ("T",), 0)
        self.frames.append(f)
        for p in fn.params:
            v = fn.tu.vars[p]
            t = fn.tu.types[v["t"]]
            if "ArrayGlobalOffset" in t:
                self.offs[self.loc(f, p)] = {"Unknown"} if "&" in t and "const" not in t else {"?"}
            if "basic_string" in t or t.startswith("std::string"):
                f.env[p] = ("str", "<%s>" % v["n"])
        self.dead = False
        self.block(f, fn.body)
        if self.cur != ():
            self.problems.append((fn, fn.body, "the serializer is left at %s instead of the path it was entered with" % self.pp(self.cur)))
        return self.events

    @staticmethod
    def pp(c):
        return "/".join(c) or "(entry)"

    def loc(self, f, vid):
        v = f.env.get(vid)
        if v and v[0] == "p":
            return v[1]
        return ("L", f.fid, vid)

    # absolute path of an lvalue
    def abs(self, f, n):
        p = path(self.P, f.fn, n)
        if p is None:
            return None
        if p[0] == "T":
            return f.this + p[1:]
        if p[0] == "G":
            return p
        return self.loc(f, p[1]) + p[2:]

    def members(self, f, n):
        """maximal member paths mentioned in an expression"""
        out = set()

        def rec(x):
            if x["k"] in ("Mem", "Ref", "This"):
                p = self.abs(f, x)
                if p and p[0] == "T" and len(p) > 1:
                    out.add(p)
                    return
                if p and p[0] == "L" and x["k"] == "Ref":
                    out.add(p)
                    return
            for c in kids(x):
                rec(c)
        if n is not None:
            rec(n)
        return out

    def s(self, f, n, d=0):
        """string value of an expression, with holes"""
        n = unwrap(n)
        if n is None or d > 12:
            return None
        k = n["k"]
        if k == "Str":
            return n.get("v", "")
        if k == "Ref":
            v = f.env.get(n["id"])
            if v and v[0] == "str":
                return v[1]
            if v and v[0] == "cwd":
                return v
            return None
        if k == "Con" and n["args"]:
            return self.s(f, n["args"][0], d + 1)
        if k == "OpCall" and n["op"] == "+" and len(n["args"]) == 2 or k == "Bin" and n["op"] == "+":
            a, b = n["args"] if k == "OpCall" else (n["a"], n["b"])
            a, b = self.s(f, a, d + 1), self.s(f, b, d + 1)
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return None
        if k == "Call" and (self.P.callee_q(f.fn, n) or "") == "std::to_string":
            v = const(n["args"][0])
            if v is not None:
                return str(v)
            a = strip(n["args"][0])
            if a["k"] == "Ref" and f.env.get(a["id"], ("",))[0] == "iv":
                return "{" + f.env[a["id"]][1] + "}"
            return "{" + show(self.P, f.fn, n["args"][0]) + "}"
        if k == "MCall" and (self.P.callee_q(f.fn, n) or "").endswith("::GetCurrentPath"):
            return ("cwd", self.cur)
        return None

    def offval(self, f, n):
        n = unwrap(n)
        if n is None:
            return {"?"}
        if n["k"] == "Ref":
            p = self.abs(f, n)
            if p and p[0] == "G":
                m = re.search(r"ArrayGlobalOffset_(\w+)$", p[1])
                if m:
                    return {"Unknown" if m.group(1).startswith("Unk") else m.group(1)}
            return set(self.offs.get(p, {"?"}))
        if n["k"] == "OpCall" and n["op"] in ("*", "/"):
            return self.offval(f, n["args"][0])
        if n["k"] == "Con":
            if len(n["args"]) == 2:
                return {"Dist"}
            if len(n["args"]) == 1:
                return self.offval(f, n["args"][0])
        if n["k"] == "InitL" and len(n.get("c", [])) == 2:
            return {"Dist"}
        p = self.abs(f, n)
        return set(self.offs.get(p, {"?"})) if p else {"?"}

    # ------------------------------------------------------------------ statements
    def block(self, f, n):
        if n is None or self.dead:
            return
        k = n["k"]
        if k == "Seq":
            g0 = len(self.guards)
            for c in n.get("c", []):
                if self.dead:
                    break
                self.block(f, c)
            return
        if k == "If":
            self.expr(f, n.get("init")) if n.get("init") else None
            self.expr(f, n["cond"])
            c = const(n["cond"])
            if c is not None:
                self.block(f, n["then"] if c else n.get("else"))
                return
            g = self.cond(f, n["cond"])
            conj = self.conj(f, n["cond"])
            cur0, offs0 = self.cur, {k: set(v) for k, v in self.offs.items()}
            depth = len(self.guards)
            self.guards.extend(conj)
            self.block(f, n["then"])
            d1, cur1, offs1 = self.dead, self.cur, self.offs
            del self.guards[depth:]
            self.dead, self.cur, self.offs = False, cur0, offs0
            self.guards.append((not g[0],) + g[1:])
            self.block(f, n.get("else"))
            d2, cur2, offs2 = self.dead, self.cur, self.offs
            del self.guards[depth:]
            if d1 and d2:
                self.dead = True
                return
            self.dead = False
            if d1:
                self.cur, self.offs = cur2, offs2
                self.guards.append((not g[0],) + g[1:])
            elif d2:
                self.cur, self.offs = cur1, offs1
                self.guards.extend(conj)
            else:
                if cur1 != cur2:
                    self.problems.append((f.fn, n, "the branches leave the serializer at different paths (%s / %s)" % (self.pp(cur1), self.pp(cur2))))
                self.cur = cur2
                self.offs = {k: set(offs1.get(k, ())) | set(offs2.get(k, ())) for k in set(offs1) | set(offs2)}
            return
        if k in ("For", "RFor", "While", "Do"):
            if k == "For":
                self.block(f, n.get("init"))
            lo = self.loopdesc(f, n)
            depth = len(self.guards)
            self.guards.append(lo)
            cur0 = self.cur
            self.block(f, n["body"])
            self.dead = False
            if self.cur != cur0:
                self.problems.append((f.fn, n, "an iteration leaves the serializer at %s instead of %s" % (self.pp(self.cur), self.pp(cur0))))
                self.cur = cur0
            del self.guards[depth:]
            return
        if k == "Return":
            if n.get("e"):
                self.expr(f, n["e"])
            self.dead = True
            self.at_return(f, n)
            return
        if k in ("Break", "Continue"):
            return
        if k == "Decl":
            for v in n["vars"]:
                if v.get("init"):
                    self.expr(f, v["init"])
                    self.setvar(f, v["id"], v["init"])
            return
        if k in ("Switch", "Case", "Default", "Try", "OMP"):
            for c in kids(n):
                self.block(f, c)
            return
        self.expr(f, n)

    def at_return(self, f, n):
        if f.fid == 0 and len(self.frames) == 1 and self.cur != ():
            self.problems.append((f.fn, n, "returns with the serializer at %s" % self.pp(self.cur)))

    def loopdesc(self, f, n):
        if n["k"] == "For":
            ini, cond = n.get("init"), strip(n.get("cond") or {"k": "x"})
            if ini and ini["k"] == "Decl" and len(ini["vars"]) == 1 and cond and cond["k"] == "Bin":
                a = const(ini["vars"][0].get("init")) if ini["vars"][0].get("init") else None
                vid = ini["vars"][0]["id"]
                b = const(cond["b"])
                l = strip(cond["a"])
                if l["k"] == "Ref" and l["id"] == vid and a is not None and b is not None:
                    hi = b + (1 if cond["op"] == "<=" else 0)
                    f.env[vid] = ("iv", "%g..%g" % (a, hi))
                    return (True, "for %g..%g" % (a, hi), frozenset(), f.fid)
                f.env[vid] = ("iv", "i")
                return (True, "for %s %s %s" % (a, cond["op"], self.norm(f, cond["b"])), frozenset(), f.fid)
        if n["k"] == "RFor":
            return (True, "for each of " + self.norm(f, n["range"]), frozenset(), f.fid)
        return (True, "loop", frozenset(), f.fid)

    def norm(self, f, n, d=0):
        n = unwrap(n)
        if n is None:
            return "-"
        c = const(n)
        if c is not None:
            return "%g" % c
        if n["k"] == "Ref" and d < 4:
            e = f.env.get(n["id"])
            if e and e[0] == "e":
                return self.norm(f, e[1], d + 1)
            if e and e[0] == "c":
                return "%g" % e[1]
        if is_ser_type(self.P.type(f.fn, n)) and n["k"] in ("Ref", "Mem"):
            return "SER"
        p = self.abs(f, n)
        if p and n["k"] in ("Ref", "Mem", "This"):
            return ".".join(str(x) for x in p)
        k = n["k"]
        S = lambda x: self.norm(f, x, d)
        if k in ("Bin", "Asg"):
            return "(" + S(n["a"]) + " " + n["op"] + " " + S(n["b"]) + ")"
        if k == "MCall":
            nm = (self.P.callee_q(f.fn, n) or "?").rsplit("::", 1)[-1]
            if nm.startswith("operator conv") or nm.startswith("operator bool"):
                return S(n["b"])
            return S(n.get("b")) + "." + nm + "(" + ", ".join(S(a) for a in n["args"]) + ")"
        if k == "Call":
            q = self.P.callee_q(f.fn, n) or "?"
            ta = ""
            if q.endswith("pointer_cast"):
                ta = "<" + self.P.type(f.fn, n) + ">"
            return q + ta + "(" + ", ".join(S(a) for a in n["args"]) + ")"
        if k == "OpCall" and n["op"] in ("->", "*") and len(n["args"]) == 1:
            return S(n["args"][0])
        if k == "Un":
            return n["op"] + S(n["e"])
        return show(self.P, f.fn, n)

    def conj(self, f, n):
        n = unwrap(n)
        if n["k"] == "Bin" and n["op"] == "&&":
            return self.conj(f, n["a"]) + self.conj(f, n["b"])
        return [self.cond(f, n)]

    def cond(self, f, n):
        n = unwrap(n)
        pos = True
        while n["k"] == "Un" and n["op"] == "!" or n["k"] == "OpCall" and n["op"] == "!":
            pos = not pos
            n = unwrap(n["e"] if n["k"] == "Un" else n["args"][0])
        if n["k"] == "Ref" and f.env.get(n["id"], ("",))[0] == "e":
            g = self.cond(f, f.env[n["id"]][1])
            return (g[0] == pos,) + g[1:]
        if n["k"] in ("Bin", "OpCall") and n.get("op") in ("==", "!="):
            a, b = (n["a"], n["b"]) if n["k"] == "Bin" else n["args"]
            if n["op"] == "!=":
                pos = not pos
            x = sorted([self.norm(f, a), self.norm(f, b)])
            t = x[0] + " == " + x[1]
        else:
            t = self.norm(f, n)
        return (pos, t, frozenset(self.members(f, n)), f.fid)

    def setvar(self, f, vid, init):
        P, fn = self.P, f.fn
        t = fn.tu.types[fn.tu.vars[vid]["t"]]
        if "ArrayGlobalOffset" in t:
            self.offs[self.loc(f, vid)] = self.offval(f, init)
            return
        s = self.s(f, init)
        if isinstance(s, str):
            f.env[vid] = ("str", s)
        elif isinstance(s, tuple):
            f.env[vid] = s
        elif t in ("bool", "const bool", "int", "const int", "const long", "long") and not any(path(P, fn, a) == ("V", vid) for _, a, _, _, _ in assigns(P, fn, fn.body)) and not self.passed_ref(f, vid):
            f.env[vid] = ("e", init)
        elif "&" in t or "*" in t:
            p = self.abs(f, init)
            if p and p[0] in ("T", "L") and p != ("L", f.fid, vid):
                f.env[vid] = ("p", p)

    def passed_ref(self, f, vid):
        """may the variable be changed by a call (an out-argument)?"""
        for n in walk(f.fn.body):
            if n["k"] in ("Call", "MCall"):
                for a in n["args"]:
                    if a["k"] == "Ref" and a["id"] == vid or a["k"] == "Un" and a["op"] == "&" and strip(a["e"])["k"] == "Ref" and strip(a["e"])["id"] == vid:
                        return True
        return False

    # ------------------------------------------------------------------ expressions
    def expr(self, f, n):
        if n is None:
            return
        k = n["k"]
        if k == "Lam":
            return
        if k == "Cond":
            self.expr(f, n["c"])
            g = self.cond(f, n["c"])
            self.guards.append(g)
            self.expr(f, n["a"])
            self.guards[-1] = (not g[0],) + g[1:]
            self.expr(f, n["b"])
            self.guards.pop()
            return
        if k in ("Seq", "If", "For", "RFor", "While", "Do", "Decl", "Return", "Switch", "Try"):
            self.block(f, n)
            return
        for c in kids(n):
            self.expr(f, c)
        if k == "Asg" and n["op"] == "=" or k == "OpCall" and n["op"] == "=" and len(n["args"]) == 2:
            a, b = (n["a"], n["b"]) if k == "Asg" else n["args"]
            sa = strip(a)
            if "ArrayGlobalOffset" in self.P.type(f.fn, sa):
                p = self.abs(f, a)
                if p:
                    self.offs[p] = self.offval(f, b)
            elif sa["k"] == "Ref":
                self.setvar(f, sa["id"], b)
            return
        if k not in ("Call", "MCall", "OpCall"):
            return
        q = self.P.callee_q(f.fn, n) or ""
        cls, _, nm = q.rpartition("::")
        if cls.startswith(SER) and k == "MCall":
            self.ser(f, n, nm)
            return
        tg = self.CG.call(f.fn, n)
        if not tg:
            return
        hands = any(is_ser_type(self.P.type(f.fn, a)) for a in n.get("args", []))
        if len(tg) > 1:
            tg = tg[:1] if not hands else tg
        for t, args in tg:
            if t.dep or t.q.startswith(SER):
                continue
            lam = bool(t.info.get("lambda"))
            if not hands and not lam:
                continue
            if t.key in self.stack or len(self.stack) > 14:
                continue
            self.inline(f, n, t, args, lam)

    def inline(self, f, n, t, args, lam):
        if lam and t.tu is f.fn.tu:
            # captures keep the enclosing frame
            g = Frame(t, f.this, f.fid)
            g.env = f.env
        else:
            self.nf += 1
            this = f.this
            if n["k"] == "MCall" and n.get("b"):
                this = self.abs(f, n["b"]) or ("?", self.nf)
            g = Frame(t, this, self.nf)
        for a, pid in zip(args, t.params):
            v = t.tu.vars[pid]
            ty = t.tu.types[v["t"]]
            if "ArrayGlobalOffset" in ty:
                p = self.abs(f, a)
                if "&" in ty and p:
                    g.env[pid] = ("p", p)
                    self.offs.setdefault(p, self.offval(f, a))
                else:
                    self.offs[("L", g.fid, pid)] = self.offval(f, a)
                continue
            s = self.s(f, a)
            if isinstance(s, str):
                g.env[pid] = ("str", s)
            elif isinstance(s, tuple):
                g.env[pid] = s
            else:
                c = const(a)
                if c is not None:
                    g.env[pid] = ("c", c)
                else:
                    p = self.abs(f, a)
                    if p and p[0] in ("T", "L", "G"):
                        g.env[pid] = ("p", p)
        self.stack.append(t.key)
        self.frames.append(g)
        d0, gd = self.dead, len(self.guards)
        self.block(g, t.body)
        self.dead = d0
        del self.guards[gd:]
        self.frames.pop()
        self.stack.pop()

    def ser(self, f, n, nm):
        args = n["args"]
        if nm == "GoToPath":
            s = self.s(f, args[0])
            if isinstance(s, tuple):
                self.cur = s[1]
            elif s is None:
                self.problems.append((f.fn, n, "?path"))
            else:
                self.cur = () if s.startswith("/") and not s.strip("/") else self.cur + tuple(x for x in s.split("/") if x)
            return
        if nm == "CreatePath":
            s = self.s(f, args[0])
            if isinstance(s, str):
                self.events.append(Ev(kind="C", ty="path", key=self.cur + tuple(x for x in s.split("/") if x), g=tuple(self.guards), f=f, n=n, val=None, off=None, tgt=None, null=False, cnt=None))
            return
        if nm in ("OpenFile", "CloseFile"):
            r = const(args[1]) if nm == "OpenFile" and len(args) > 1 else None
            self.events.append(Ev(kind="O" if nm == "OpenFile" else "X", ty=r, key=(), g=tuple(self.guards), f=f, n=n, val=None, off=None, tgt=None, null=False, cnt=None))
            self.cur = ()
            return
        m = re.match(r"(Write|Read)(\w+)$", nm)
        if not m:
            return
        kind, ty = m.group(1)[0], m.group(2)
        if ty.endswith("PerRank"):
            ty = ty[:-7]
        s = self.s(f, args[0])
        key = self.cur + ((s,) if isinstance(s, str) else ("?" + show(self.P, f.fn, args[0]),))
        v = args[1] if len(args) > 1 else None
        null = bool(v) and strip(v)["k"] in ("NullP",) or (v is not None and const(v) == 0 and ty == "Uint8Array")
        off = None
        oa = next((a for a in args[2:] if "ArrayGlobalOffset" in self.P.type(f.fn, strip(a)) or "ArrayGlobalOffset" in self.P.type(f.fn, a)), None)
        if oa is not None:
            off = self.offval(f, oa)
            if kind == "R":
                p = self.abs(f, oa)
                if p:
                    self.offs[p] = {"One"} if off == {"One"} else {"Dist"}
        self.events.append(Ev(kind=kind, ty=ty, key=key, g=tuple(self.guards), f=f, n=n, val=v, mem=self.members(f, v), off=off,
                              tgt=self.abs(f, v) if v is not None else None, null=null, cnt=args[2] if ty == "Uint8Array" and len(args) > 2 else None))
