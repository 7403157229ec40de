"""Which values a selector may have where a statement stands: switch labels and equality tests around it."""
from prog import *
from expr import *


def key(P, fn, n):
    """name of a selector: the member chain, without the variable it hangs on when that is a local alias"""
    n = strip(n)
    if n is None:
        return None
    if n["k"] == "Mem":
        p = path(P, fn, n)
        if p is None:
            return None
        return ".".join(str(x) for x in p[1:]) if p[0] == "T" else ".".join(str(x) for x in p[2:]) or None
    if n["k"] == "Ref":
        v = fn.tu.vars[n["id"]]
        i = getattr(fn, "_inits", None)
        if i is None:
            i = fn._inits = {}
            for x in walk(fn.body):
                if x["k"] == "Decl":
                    for w in x["vars"]:
                        if w.get("init"):
                            i[w["id"]] = w["init"]
        if n["id"] in i:
            k = key(P, fn, i[n["id"]]) if strip(i[n["id"]])["k"] == "Mem" else None
            return k or n["n"]
        return n["n"]
    return None


def cval(n):
    n = strip(n)
    if n is None:
        return None
    if "v" in n and n["k"] in ("Int", "Bool", "Ref"):
        try:
            return int(n["v"])
        except (TypeError, ValueError):
            return None
    c = const(n)
    return c


def conj(P, fn, c, pos=True):
    """constraints of a condition: list of (selector, frozenset of values, allowed?); [None] for a dead branch"""
    c = strip(c)
    if c is None:
        return []
    if c["k"] == "Bool" or (c["k"] == "Int" and "v" in c):
        t = bool(int(c["v"]))
        return [] if t == pos else [None]
    if c["k"] == "Un" and c["op"] == "!":
        return conj(P, fn, c["e"], not pos)
    if c["k"] == "Bin" and c["op"] in ("&&", "||"):
        if (c["op"] == "&&") == pos:
            return conj(P, fn, c["a"], pos) + conj(P, fn, c["b"], pos)
        a, b = conj(P, fn, c["a"], pos), conj(P, fn, c["b"], pos)
        if None in a:
            return b
        if None in b:
            return a
        if len(a) == 1 and len(b) == 1 and a[0][0] == b[0][0] and a[0][2] and b[0][2]:
            return [(a[0][0], a[0][1] | b[0][1], True)]
        return []
    if c["k"] == "Bin" and c["op"] in ("==", "!="):
        for x, y in ((c["a"], c["b"]), (c["b"], c["a"])):
            v = cval(y)
            k = key(P, fn, x)
            if v is not None and k is not None:
                return [(k, frozenset([v]), (c["op"] == "==") == pos)]
    return []


def guarded(P, fn, root=None):
    """yield (node, constraints) for every node of the function (closures not entered)"""
    st = [(root or fn.body, ())]
    while st:
        n, g = st.pop()
        yield n, g
        k = n["k"]
        if k == "If":
            for x in ("init", "var", "cond"):
                if n.get(x):
                    st.append((n[x], g))
            if n.get("then"):
                st.append((n["then"], g + tuple(conj(P, fn, n["cond"], True))))
            if n.get("else"):
                st.append((n["else"], g + tuple(conj(P, fn, n["cond"], False))))
            continue
        if k == "Cond":
            st.append((n["c"], g))
            st.append((n["a"], g + tuple(conj(P, fn, n["c"], True))))
            st.append((n["b"], g + tuple(conj(P, fn, n["c"], False))))
            continue
        if k == "Switch":
            st.append((n["cond"], g))
            sel = key(P, fn, n["cond"])
            body = n["body"]["c"] if n["body"]["k"] == "Seq" else [n["body"]]
            allv, cur, open_, dflt = set(), set(), False, False
            segs = []
            for s in body:
                while s is not None and s["k"] in ("Case", "Default"):
                    if not open_:
                        cur, dflt = set(), False
                    open_ = True
                    if s["k"] == "Case":
                        v = cval(s["val"])
                        cur = cur | {v}
                        allv.add(v)
                    else:
                        dflt = True
                    s = s.get("body")
                if s is not None:
                    segs.append((s, frozenset(cur), dflt))
                    if leaves(s):
                        open_ = False
            for s, vs, d in segs:
                if sel is None:
                    st.append((s, g))
                elif d:
                    rest = frozenset(x for x in allv if x is not None) - vs
                    st.append((s, g + ((sel, rest, False),)))
                else:
                    st.append((s, g + ((sel, vs, True),)))
            continue
        for c in kids(n):
            st.append((c, g))


def leaves(s):
    k = s["k"]
    if k in ("Break", "Return", "Continue", "Throw", "Goto"):
        return True
    if k == "Seq":
        return bool(s.get("c")) and any(leaves(x) for x in s["c"])
    if k == "If":
        return bool(s.get("else")) and leaves(s["then"]) and leaves(s["else"])
    return False


def compatible(g1, g2):
    """may both sets of constraints hold at once"""
    if None in g1 or None in g2:
        return False
    pos, neg = {}, {}
    for k, vs, t in tuple(g1) + tuple(g2):
        if t:
            pos[k] = pos[k] & vs if k in pos else vs
        else:
            neg[k] = neg.get(k, frozenset()) | vs
    for k, vs in pos.items():
        if not vs - neg.get(k, frozenset()):
            return False
    return True
