"""P23: life cycle of ghost exchanges: set up in order for the right entities, started ones completed before they matter."""
from prog import *
from expr import *
from callgraph import CallGraph

CLS = "DNDS::ArrayTransformer::"
EV = {"setFatherSon", "createFatherGlobalMapping", "createGhostMapping", "BorrowGGIndexing", "createMPITypes", "initPersistentPull",
      "initPersistentPush", "startPersistentPull", "startPersistentPush", "waitPersistentPull", "waitPersistentPush", "pullOnce", "pushOnce",
      "clearPersistentPull", "clearPersistentPush", "reInitPersistentPullPush", "TransAttach"}
ENT = {"cell2node": "cell", "cell2cell": "cell", "cell2face": "cell", "cellElemInfo": "cell", "cell2nodePbi": "cell", "bnd2node": "boundary",
       "bnd2cell": "boundary", "bndElemInfo": "boundary", "face2node": "face", "face2cell": "face", "faceElemInfo": "face", "face2nodePbi": "face",
       "node2cell": "node", "node2bnd": "node", "coords": "node", "coordsElevDisp": "node"}
NUM = {"NumCell": "cell", "NumNode": "node", "NumFace": "face", "NumBnd": "boundary"}
ADJ = re.compile(r"CellFaceOther|[a-z]+2(cell|node|face|bnd)\b|\b[cfnb]2[cfnb]\b")
PROC = re.compile(r"Num\w+(Proc|Ghost)\w*\(\)")


class Stop(Exception):
    """a path that ends (return, throw)"""


class Life:
    """walks one root function with the functions and closures it calls that touch an exchange; state: array -> {(aspect, phase, guards)}"""

    def __init__(s, A, root):
        s.A, s.P, s.R = A, A.P, A.R
        s.root = root
        s.alias = {}
        s.stack = [root]
        s.exits = []
        s.loopvars = {}

    # ------------------------------------------------ paths
    def path(s, fn, n, depth=0):
        p = path(s.P, fn, n)
        return s.canon(p, depth)

    def canon(s, p, depth=0):
        if p is None or depth > 12:
            return p
        r = p[:2] if p[0] in ("V", "G") else p[:1]
        rest = p[len(r):]
        if p[0] == "T":
            r = ("T", id(s.stack[-1].cls) if False else s.this)
            if s.this is not None:
                return s.canon(s.this + rest, depth + 1)
            return ("T",) + rest
        if r in s.alias:
            return s.canon(s.alias[r] + rest, depth + 1) if s.alias[r] is not None else None
        return p

    this = None

    def key(s, p):
        """the array behind a path to it or to its exchange object"""
        if p is None:
            return None
        if p and p[-1] == "trans":
            return p[:-1]
        return p

    # ------------------------------------------------ state
    @staticmethod
    def get(st, k, asp):
        return st.get((k, asp), frozenset([("?" if asp == "set" else "idle", frozenset())]))

    def put(s, st, k, asp, ph):
        st[(k, asp)] = frozenset([(ph, frozenset())])

    def viol(s, rule, fn, n, k, text):
        key = "%s:%s:%s" % (rule, fn.q.rsplit("::", 1)[-1], s.name(k))
        s.R.viol(key, s.P.where(fn, n), text % s.name(k), ["in %s" % fn.q])

    def name(s, k):
        if k is None:
            return "?"
        out = []
        for i, x in enumerate(k):
            if k[0] == "V" and i == 1:
                out.append(s.A.vname(x, s.root))
            elif i > 0:
                out.append(str(x))
        return ".".join(out) or "this"

    # ------------------------------------------------ events
    def event(s, fn, n, nm, k, st):
        s.A.count(fn, n, nm)
        setp = {x[0] for x in s.get(st, k, "set")}
        if nm in ("TransAttach", "setFatherSon"):
            s.put(st, k, "set", "attached")
            return
        if nm == "createFatherGlobalMapping":
            return
        if nm in ("createGhostMapping", "BorrowGGIndexing"):
            s.put(st, k, "set", "mapped")
            return
        if nm == "createMPITypes":
            if "attached" in setp:
                s.viol("types", fn, n, k, "communication types of %s are made without a ghost mapping (attaching dropped the old one)")
            s.put(st, k, "set", "typed")
            return
        d = "Pull" if "ull" in nm else "Push"
        fly = {x[0] for x in s.get(st, k, d)}
        if nm.startswith("init") or nm in ("pullOnce", "pushOnce"):
            for bad, txt in (("attached", "before it has a ghost mapping"), ("mapped", "without communication types for its ghost mapping")):
                if bad in setp:
                    s.viol("setup", fn, n, k, "%s is exchanged " + txt)
            if "flying" in fly:
                s.viol("again", fn, n, k, "the exchange of %s is set up again while it is under way")
            s.put(st, k, "req" + d, "ready" if nm.startswith("init") else "gone")
            s.put(st, k, d, "idle")
            return
        if nm.startswith("start"):
            for bad, txt in (("attached", "before it has a ghost mapping"), ("mapped", "without communication types for its ghost mapping")):
                if bad in setp:
                    s.viol("setup", fn, n, k, "%s is exchanged " + txt)
            req = {x[0] for x in s.get(st, k, "req" + d)}
            if "gone" in req or setp & {"typed"} and "ready" not in req:
                s.viol("requests", fn, n, k, "the exchange of %s is started without its requests: it transfers nothing or to the wrong place")
            if "flying" in fly:
                s.viol("again", fn, n, k, "the exchange of %s is started again before it completed")
            s.put(st, k, d, "flying")
            return
        if nm.startswith("wait"):
            s.put(st, k, d, "idle")
            return
        if nm.startswith("clear"):
            s.put(st, k, d, "idle")
            s.put(st, k, "req" + d, "gone")
            return
        if nm == "reInitPersistentPullPush":
            for d in ("Pull", "Push"):
                s.put(st, k, d, "idle")

    # ------------------------------------------------ expressions
    def expr(s, fn, n, st):
        if n is None:
            return
        k = n["k"]
        if k == "Lam":
            return
        if n.get("m", "").startswith("DNDS_assert"):
            return
        if k in ("Bin",) and n["op"] in ("&&", "||") or k == "Cond":
            s.expr(fn, n["c"] if k == "Cond" else n["a"], st)
            s.branch(fn, show(s.P, fn, n["c"] if k == "Cond" else n["a"]), [lambda x: s.expr(fn, n["a"] if k == "Cond" else n["b"], x),
                                                                          (lambda x: s.expr(fn, n["b"], x)) if k == "Cond" else (lambda x: None)], st)
            return
        for c in kids(n):
            s.expr(fn, c, st)
        if k in ("MCall", "Call", "OpCall"):
            s.call(fn, n, st)
        if k == "Throw":
            raise Stop()
        s.use(fn, n, st)

    def call(s, fn, n, st):
        q = s.P.callee_q(fn, n) or ""
        nm = q.rsplit("::", 1)[-1]
        if nm in EV and n.get("b") and ("Transformer" in q or "ArrayPair" in q or nm == "TransAttach"):
            p = s.path(fn, n["b"])
            if p is not None:
                k = s.key(p)
                s.event(fn, n, nm, k, st)
                if nm == "BorrowGGIndexing":
                    s.A.borrow(s, fn, n, k, s.key(s.path(fn, n["args"][0])))
            return
        if nm == "SwapDataFatherSon" and n.get("b"):
            for x in (n["b"], n["args"][0]):
                k = s.key(s.path(fn, x))
                for d in ("Pull", "Push"):
                    if k is not None and (k, d) in st:
                        s.put(st, k, d, "idle")
            return
        tg = s.A.callees(fn, n)
        for f in tg:
            args = list(n["args"])
            if f in s.stack or len(s.stack) > 5 or f.body is None:
                continue
            if f.key in s.A.touch:
                s.A.inlined.add(f.key)
            else:                         # one that is handed an array whose exchange is under way
                fl = {k for (k, a), v in st.items() if a in ("Pull", "Push") and any(x[0] == "flying" for x in v)}
                if n["k"] == "OpCall" or not fl or not any(s.path(fn, a) in fl for a in args):
                    continue
            if n["k"] == "OpCall" and n["op"] == "()" and len(args) == len(f.params) + 1:
                args = args[1:]
            old, oth = dict(s.alias), s.this
            for pid, a in zip(f.params, args):
                s.alias[("V", pid)] = s.path(fn, a)
                if s.alias[("V", pid)] is not None and s.alias[("V", pid)][:2] == ("V", pid):
                    del s.alias[("V", pid)]
            if not s.A.is_lambda(f):
                s.this = s.path(fn, n["b"]) if n.get("b") else oth
                if s.this == ("T",):
                    s.this = oth
            s.stack.append(f)
            try:
                s.body(f, st, False)
            finally:
                s.stack.pop()
                s.alias, s.this = old, oth
            break

    def use(s, fn, n, st):
        """direct accesses to elements of an array whose exchange is under way"""
        fl = [k for (k, a), v in st.items() if a in ("Pull", "Push") and any(x[0] == "flying" for x in v)]
        if not fl:
            return
        if n["k"] == "Asg" or n["k"] == "OpCall" and n["op"] in ("=", "+=", "-=", "*=", "/="):
            t = n["a"] if n["k"] == "Asg" else n["args"][0]
            p = s.path(fn, t)
            for k in fl:
                if p is not None and p[:len(k)] == k and p[len(k):] in ((), ("father",), ("son",)):
                    s.viol("written", fn, n, k, "%s is written while its exchange is under way")
        if n["k"] == "OpCall" and n["op"] in ("[]", "()") and len(n["args"]) >= 2:
            p = s.path(fn, n["args"][0])
            for k in fl:
                if p == k and not s.owned(fn, n["args"][1]):
                    s.viol("read", fn, n, k, "%s is read at an index that may be a ghost while its exchange is under way")

    def owned(s, fn, i):
        i = strip(i)
        if i is None:
            return True
        if i["k"] == "Ref":
            b = s.loopvars.get(i["id"])
            return b is None or not (PROC.search(b) or ADJ.search(b))
        return not ADJ.search(show(s.P, fn, i))

    # ------------------------------------------------ statements
    def branch(s, fn, cond, arms, st):
        outs = []
        for val, arm in zip((True, False), arms):
            x = {}
            dead = False
            for key, v in st.items():
                w = frozenset(e for e in v if (cond, not val) not in e[1])
                x[key] = w or v
            try:
                arm(x)
                outs.append((val, x))
            except Stop:
                pass
        if not outs:
            raise Stop()
        st.clear()
        if len(outs) == 1:
            st.update(outs[0][1])
            return
        a, b = outs[0][1], outs[1][1]
        for key in set(a) | set(b):
            va, vb = s.get(a, *key), s.get(b, *key)
            if va == vb:
                st[key] = va
            else:
                st[key] = frozenset((p, g if len(g) > 3 else g | {(cond, True)}) for p, g in va) | frozenset((p, g if len(g) > 3 else g | {(cond, False)}) for p, g in vb)

    def join(s, a, b):
        out = {}
        for key in set(a) | set(b):
            out[key] = s.get(a, *key) | s.get(b, *key)
        return out

    def stmt(s, fn, n, st):
        if n is None:
            return
        k = n["k"]
        if k == "Seq":
            for x in n.get("c", []):
                s.stmt(fn, x, st)
            return
        if k == "If":
            s.stmt(fn, n.get("init"), st) if n.get("init") else None
            if n.get("var"):
                s.stmt(fn, n["var"], st)
            s.expr(fn, n["cond"], st)
            c = strip(n["cond"])
            v = const(c) if c is not None else None
            if n.get("constexpr") and v is not None:
                s.stmt(fn, n["then"] if v else n.get("else"), st)
                return
            txt = show(s.P, fn, n["cond"])
            neg = txt.startswith("!")
            arms = [lambda x: s.stmt(fn, n["then"], x), lambda x: s.stmt(fn, n.get("else"), x)]
            if neg:
                txt, arms = txt[1:], arms[::-1]
            s.branch(fn, txt, arms, st)
            return
        if k in ("For", "While", "Do", "RFor"):
            if n.get("init"):
                s.stmt(fn, n["init"], st)
                for v in (n["init"].get("vars") or ()):
                    s.loopvars[v["id"]] = show(s.P, fn, n.get("cond")) if n.get("cond") else ""
            if k == "RFor":
                s.expr(fn, n["range"], st)
                for v in n["vars"]:
                    s.loopvars[v["id"]] = show(s.P, fn, n["range"])
            for x in ("cond",):
                if n.get(x) and k != "Do":
                    s.expr(fn, n[x], st)
            cur = st
            out = None if k == "Do" else dict(st)
            for _ in range(2):
                x = dict(cur)
                s.brk.append([])
                try:
                    s.stmt(fn, n["body"], x)
                    if n.get("inc"):
                        s.expr(fn, n["inc"], x)
                    if k == "Do":
                        s.expr(fn, n["cond"], x)
                    ok = True
                except Stop:
                    ok = False
                bs = s.brk.pop()
                res = ([x] if ok else []) + bs
                if not res:
                    break
                for r in res:
                    out = r if out is None else s.join(out, r)
                cur = s.join(cur, out) if k != "Do" else out
                if not ok and not bs:
                    break
            if out is None:
                raise Stop()
            st.clear()
            st.update(out)
            return
        if k == "Switch":
            s.expr(fn, n.get("cond"), st)
            s.brk.append([])
            out = dict(st)
            try:
                x = dict(st)
                s.stmt(fn, n["body"], x)
                out = s.join(out, x)
            except Stop:
                pass
            for b in s.brk.pop():
                out = s.join(out, b)
            st.clear()
            st.update(out)
            return
        if k in ("Break", "Continue"):
            if s.brk:
                s.brk[-1].append(dict(st))
            raise Stop()
        if k == "Return":
            if n.get("e"):
                s.expr(fn, n["e"], st)
            s.rets[-1].append(dict(st))
            raise Stop()
        if k == "Decl":
            for v in n["vars"]:
                if v.get("init"):
                    s.expr(fn, v["init"], st)
                    s.loopvars[v["id"]] = show(s.P, fn, v["init"])
                    t = fn.tu.types[v["t"]]
                    if t.rstrip().endswith("&") or t.rstrip().endswith("*"):
                        p = s.path(fn, v["init"])
                        if p is not None and p != ("V", v["id"]):
                            s.alias[("V", v["id"])] = p
            return
        if k in ("Case", "Default", "Label", "OMP", "Try", "Attr"):
            for c in kids(n):
                s.stmt(fn, c, st)
            return
        s.expr(fn, n, st)

    def body(s, fn, st, top):
        s.rets.append([])
        ob, s.brk = s.brk, []
        try:
            s.stmt(fn, fn.body, st)
            outs = [dict(st)]
        except Stop:
            outs = []
        s.brk = ob
        outs += s.rets.pop()
        if not outs:
            if top:
                return
            raise Stop()
        o = outs[0]
        for x in outs[1:]:
            o = s.join(o, x)
        st.clear()
        st.update(o)

    brk = []
    rets = []

    def run(s):
        s.brk, s.rets = [], []
        st = {}
        s.body(s.root, st, True)
        return st


class Analysis:
    def __init__(s, R, P):
        s.R, s.P = R, P
        s.CG = CallGraph(P)
        s.seen = set()
        s.inlined = set()
        s.events = {}
        s.touch = s.touching()
        s.borrows = set()

    def is_lambda(s, f):
        return "(lambda" in f.q or "operator()" in f.q and "lambda" in f.key

    def vname(s, vid, root):
        return root.tu.vars[vid].get("n", "?") if isinstance(vid, int) and vid < len(root.tu.vars) else str(vid)

    def callees(s, fn, n):
        return s.P.targets(fn, n) or [f for f in (s.CG.call(fn, n) or ()) if hasattr(f, "body")] if n["k"] != "OpCall" or n["op"] == "()" else []

    def touching(s):
        direct, calls = set(), {}
        for f in s.P.fns.values():
            if f.dep or f.body is None or f.q.startswith(CLS):
                continue
            for x in walk(f.body):
                if x["k"] in ("MCall", "Call", "OpCall"):
                    nm = (s.P.callee_q(f, x) or "").rsplit("::", 1)[-1]
                    if nm in EV:
                        direct.add(f.key)
                    else:
                        for g in s.callees(f, x):
                            calls.setdefault(g.key, set()).add(f.key)
        st, out = list(direct), set(direct)
        while st:
            k = st.pop()
            for c in calls.get(k, ()):
                if c not in out:
                    out.add(c)
                    st.append(c)
        s.direct = direct
        return out

    def count(s, fn, n, nm):
        w = (s.P.where(fn, n), nm)
        if w not in s.seen:
            s.seen.add(w)
            s.R.count({"start": "starts", "waitP": "waits"}.get(nm[:5], "set_up_steps"))

    def ent(s, L, k, fn):
        if k is None:
            return None
        if k[-1] in ENT:
            return ENT[k[-1]]
        for f in L.stack + closure(s.P, L.root):
            for x in walk(f.body):
                if x["k"] == "MCall" and (s.P.callee_q(f, x) or "").endswith("::Resize") and x["args"]:
                    p = L.path(f, x["b"]) if x.get("b") else None
                    if p == k + ("father",):
                        t = show(s.P, f, x["args"][0])
                        for nm, e in NUM.items():
                            if re.search(r"(^|\.|\()%s\(\)$" % nm, t):
                                return e
                        m = re.match(r"^(?:.*\.)?(\w+)\.father\.Size\(\)$", t)
                        if m and m.group(1) in ENT:
                            return ENT[m.group(1)]
        return None

    def borrow(s, L, fn, n, a, b):
        ea, eb = s.ent(L, a, fn), s.ent(L, b, fn)
        w = s.P.where(fn, n)
        if ea and eb and w not in s.borrows:
            s.borrows.add(w)
            s.R.count("borrowed_indexings")
        if ea and eb and ea != eb:
            s.R.viol("entities:%s" % w.split(":")[0] + ":" + L.name(a), w, "%s, an array over %ss, takes over the ghosts of %s, an array over %ss" % (L.name(a), ea, L.name(b), eb))

    def roots(s):
        return [s.P.fns[k] for k in sorted(s.touch) if k in s.direct]

    def run(s):
        left = []
        for f in s.roots():
            s.R.count("functions")
            L = Life(s, f)
            st = L.run()
            for (k, asp), v in sorted(st.items(), key=str):
                if asp in ("Pull", "Push") and any(x[0] == "flying" for x in v):
                    left.append((f, k, L.name(k), all(x[0] == "flying" for x in v)))
        for f, k, nm, al in left:
            if f.key in s.inlined and not s.is_lambda(f) and k[0] in ("T", "V") and (k[0] == "T" or k[1] in f.params):
                continue
            s.R.viol("left:%s:%s" % (f.q.rsplit("::", 1)[-1], nm), f.loc(), "the exchange of %s is started and %s completed in %s" % (nm, "not" if al else "not on every path", f.q))


def run(R, tier):
    R.rule("Typestate analysis over every function that touches a ghost exchange, with the closures and functions it calls: an exchange object goes "
           "through attached - mapped (own or borrowed ghosts) - typed - requests - started - completed; a step without the steps it needs, an "
           "exchange set up again or started again while under way, one left uncompleted on a path out of the function, elements written or read at "
           "possible ghost indices while it is under way, and ghosts borrowed from an array over other entities are violations. Conditions with the "
           "same text are correlated.")
    R.assume("arrays are told apart by access path; an array whose kind of entity cannot be told raises no alarm")
    P = Program(all_tus())
    A = Analysis(R, P)
    A.run()
    R.need("starts", 40)
    R.need("set_up_steps", 80)
