"""Expression helpers: printing, lvalue paths, assignments, constants."""
from prog import *

ACCESS = ("data", "array", "matrix", "back", "front", "begin", "end", "get", "transpose", "head", "tail", "segment",
          "row", "col", "block", "noalias", "at", "coeffRef", "coeff", "topRows", "bottomRows", "leftCols", "rightCols",
          "reshaped", "diagonal", "asDiagonal", "value", "eval", "middleRows", "middleCols", "colwise", "rowwise")


def show(P, fn, n, d=0):
    n = strip(n)
    if n is None or d > 25:
        return "-"
    k = n["k"]
    S = lambda x: show(P, fn, x, d + 1)
    if k == "Ref":
        return n["n"]
    if k == "Mem":
        b = S(n["b"]) if n.get("b") else "?"
        return n["n"] if b == "this" else b + "." + n["n"]
    if k == "This":
        return "this"
    if k in ("Int", "Flt", "Bool"):
        return str(n.get("v"))
    if k == "Str":
        return '"%s"' % n.get("v")
    if k == "Un":
        op = n["op"]
        return S(n["e"]) + op[1:] if op.startswith("p") else op + S(n["e"])
    if k in ("Bin", "Asg"):
        return "(" + S(n["a"]) + " " + n["op"] + " " + S(n["b"]) + ")"
    if k == "Idx":
        return S(n["b"]) + "[" + S(n["i"]) + "]"
    if k == "MCall":
        return S(n.get("b")) + "." + (P.callee_q(fn, n) or "?").rsplit("::", 1)[-1] + "(" + ", ".join(S(a) for a in n["args"]) + ")"
    if k == "OpCall":
        a = n["args"]
        op = n["op"]
        if op in ("->", "*") and len(a) == 1:
            return S(a[0])
        if op in ("[]", "()") and a:
            return S(a[0]) + op[0] + ", ".join(S(x) for x in a[1:]) + op[1]
        if len(a) == 2:
            return "(" + S(a[0]) + " " + op + " " + S(a[1]) + ")"
        return op + "(" + ", ".join(S(x) for x in a) + ")"
    if k == "Call":
        return (P.callee_q(fn, n) or "?") + "(" + ", ".join(S(a) for a in n["args"]) + ")"
    if k == "Con":
        return (P.type(fn, n) or "Con").split("<")[0] + "(" + ", ".join(S(a) for a in n["args"]) + ")"
    if k == "InitL":
        return "{" + ", ".join(S(a) for a in n.get("c", [])) + "}"
    if k == "Cond":
        return "(" + S(n["c"]) + " ? " + S(n["a"]) + " : " + S(n["b"]) + ")"
    if k == "SizeOf":
        return "sizeof"
    return k


def unwrap(n):
    """strip casts, copies, single-element init lists and parentheses-like nodes"""
    while n:
        m = strip(n)
        if m and m["k"] == "InitL" and len(m.get("c", [])) == 1:
            m = m["c"][0]
        elif m and m["k"] == "Con" and len(m["args"]) == 1 and m.get("conv"):
            m = m["args"][0]
        if m is n:
            return n
        n = m
    return n


def path(P, fn, n, access=ACCESS):
    """canonical storage path of an lvalue-ish expression: tuple of root and member steps, or None.
    Accessors that stay inside the object (data(), array(), [i] ...) are dropped; '->' and '*' too."""
    n = strip(n)
    if n is None:
        return None
    k = n["k"]
    if k == "Ref":
        v = fn.tu.vars[n["id"]]
        if v["k"] == "binding" and "of" in v:
            return ("V", v["of"])
        if v["k"] in ("global", "smember"):
            return ("G", v.get("q") or n["n"])
        return ("V", n["id"])
    if k == "This":
        return ("T",)
    if k == "Mem":
        b = path(P, fn, n["b"]) if n.get("b") else ("T",)
        return b + (n["n"],) if b else None
    if k == "Idx":
        return path(P, fn, n["b"])
    if k == "Un" and n["op"] in ("&", "*", "p++", "p--", "++", "--"):
        return path(P, fn, n["e"])
    if k == "Bin" and n["op"] in ("+", "-"):       # pointer arithmetic
        return path(P, fn, n["a"])
    if k == "MCall" and n.get("b"):
        nm = (P.callee_q(fn, n) or "").rsplit("::", 1)[-1]
        if nm in access:
            return path(P, fn, n["b"])
        return None
    if k == "OpCall" and n["args"] and n["op"] in ("[]", "()", "->", "*"):
        return path(P, fn, n["args"][0])
    if k == "Con" and len(n["args"]) == 1:
        return path(P, fn, n["args"][0])
    if k == "InitL" and len(n.get("c", [])) == 1:
        return path(P, fn, n["c"][0])
    return None


def assigns(P, fn, root):
    """yield (op, target, value, node, ctx) of every assignment in root; ctx = stack of enclosing nodes"""
    st = [(root, ())]
    while st:
        n, ctx = st.pop()
        k = n["k"]
        if k == "Asg":
            yield n["op"], n["a"], n["b"], n, ctx
        elif k == "OpCall" and n["op"] in ("=", "+=", "-=", "*=", "/=", "|=", "&=", "^=") and len(n["args"]) == 2:
            yield n["op"], n["args"][0], n["args"][1], n, ctx
        elif k == "Un" and n["op"] in ("++", "--", "p++", "p--"):
            yield n["op"].lstrip("p"), n["e"], None, n, ctx
        elif k == "OpCall" and n["op"] in ("++", "--"):
            yield n["op"], n["args"][0], None, n, ctx
        c2 = ctx + (n,)
        for c in kids(n):
            st.append((c, c2))


def const(n):
    """numeric value of a constant expression, or None"""
    n0 = n
    while n is not None:
        if "v" in n and n["k"] in ("ICast", "Cast", "Int", "Flt", "Bool", "Bin", "Un", "Cond", "Ref", "SizeOf", "Mem", "Call", "MCall") and n["v"] is not None:
            v = n["v"]
            if isinstance(v, (int, float)):
                return v
            try:
                return float(v)
            except (TypeError, ValueError):
                return None
        if n["k"] in ("ICast", "Cast"):
            n = n["e"]
        elif n["k"] == "InitL" and len(n.get("c", [])) == 1:
            n = n["c"][0]
        elif n["k"] == "InitL" and not n.get("c"):
            return 0
        elif n["k"] == "Un" and n["op"] in ("-", "+"):
            x = const(n["e"])
            return None if x is None else (-x if n["op"] == "-" else x)
        elif n["k"] == "Bin":
            a, b = const(n["a"]), const(n["b"])
            if a is None or b is None:
                return None
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "==": lambda: int(a == b), "!=": lambda: int(a != b),
                        "<": lambda: int(a < b), ">": lambda: int(a > b), "<=": lambda: int(a <= b), ">=": lambda: int(a >= b)}[n["op"]]()
            except (KeyError, ZeroDivisionError):
                return None
        else:
            return None
    return None


def lambdas_in(P, fn, root):
    for n in walk(root):
        if n["k"] == "Lam":
            for i in n["fns"]:
                key = fn.tu.fns[i].get("key")
                if key in P.fns:
                    yield P.fns[key]


def closure(P, fn):
    """fn and the lambdas written inside it (same translation unit, shared variable ids)"""
    out, st = [fn], [fn]
    seen = {fn.key}
    while st:
        f = st.pop()
        for g in lambdas_in(P, f, f.body):
            if g.key not in seen and g.tu is fn.tu:
                seen.add(g.key)
                out.append(g)
                st.append(g)
    return out


def contains_path(P, fn, n, p, prefix=False):
    for x in walk(n):
        if x["k"] in ("Ref", "Mem", "This"):
            q = path(P, fn, x)
            if q == p or (prefix and q and q[:len(p)] == p):
                return True
    return False
