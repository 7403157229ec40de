"""P03: global reductions combine what was accumulated, over owned entities, and the combined value is what is used."""
from prog import *
from expr import *
from mpisites import *
from callgraph import CallGraph
from acc import *

OK = {"SUM": {"sum"}, "MIN": {"min", "minloc"}, "MAX": {"max", "maxloc"}, "ANY": {"max", "lor", "bor", "sum"}, "ALL": {"min", "land", "band", "prod"},
      "FLAG1": {"max", "lor", "bor", "sum"}, "FLAG0": {"min", "land", "band", "prod"}}
OMPOP = {"+": "SUM", "-": "SUM", "min": "MIN", "max": "MAX", "|": "ANY", "||": "ANY", "&": "ALL", "&&": "ALL", "*": "PROD"}


def run(R, tier):
    P = Program(all_tus())
    CG = CallGraph(P)
    R.rule("For every reduction or prefix sum (across ranks and across threads): the operator is the one the local contribution was "
           "accumulated with; a sum starts from zero and runs over owned entities only; a minimum does not start at or below zero and a "
           "maximum not above; the reduced value is read or handed out afterwards and the local contribution is not used in its place; an inclusive prefix sum "
           "is made exclusive by subtracting exactly the contributed value.")
    done = set()
    for x in sites(P):
        if x.kind not in ("one",) and not x.sig.get("red"):
            continue
        fn = x.fn
        if fn.q.startswith("DNDS::MPI::"):
            if fn.name in ("AllreduceOneReal", "AllreduceOneIndex"):
                one_wrapper(P, R, x)
            continue
        op = op_name(P, fn, x.args[x.sig["op"]])
        if op is None:
            continue
        R.count("reduction_sites")
        send = x.args[0]
        recv = x.args[0] if x.kind == "one" else x.args[1]
        ps, pr = path(P, fn, send), path(P, fn, recv)
        if not ps:
            R.count("contributions_out_of_reach")
            continue
        key = "%s|%s|%s" % (fn.q, x.kind, show(P, fn, send))
        A = Acc(P, CG, fn, ps)
        if ps[0] == "T" and len(ps) == 2:
            for g in members_of(P, fn):
                if g.key != fn.key:
                    A._merge(Acc(P, None, g, ps))
        guard = site_guards(P, fn, x.n)
        judge(P, R, x, key, A, op, guard)
        used(P, R, x, key, fn, ps, pr)
        if x.kind in ("Scan",):
            exclusive(P, R, x, key, fn, ps, pr)
    omp(P, R, CG)
    R.need("reduction_sites", 60)
    R.need("operator_obligations", 40)
    R.need("result_obligations", 50)
    R.need("prefix_obligations", 6)
    R.need("thread_reductions", 15)


def members_of(P, fn):
    c = fn.info.get("clsT")
    r = []
    if c is None:
        return r
    cls = fn.q.rsplit("::", 1)[0]
    for g in P.fns.values():
        if not g.dep and g.q.rsplit("::", 1)[0] == cls and g.tu is fn.tu and g.info.get("clsT") == c:
            r.append(g)
    return r


def site_guards(P, fn, node):
    """conditions (text, polarity) under which the site runs, to pair it with guarded accumulations"""
    for n, ctx in walkctx(fn.body):
        if n is node:
            out = []
            chain = list(ctx) + [n]
            for i, c in enumerate(chain[:-1]):
                if c["k"] == "If":
                    nxt = chain[i + 1]
                    out.append((show(P, fn, c["cond"]), nxt is not c.get("else")))
            return out
    return []


def cond_interval(P, fn, c):
    """(var text, lo, hi) integer interval of a simple comparison with a constant, or None"""
    c = unwrap(c)
    if c and c["k"] == "Bin" and c["op"] in ("<", "<=", ">", ">=", "=="):
        k = const(c["b"])
        if k is None:
            return None
        v = show(P, fn, c["a"])
        o = c["op"]
        inf = float("inf")
        return (v,) + {"<": (-inf, k - 1), "<=": (-inf, k), ">": (k + 1, inf), ">=": (k, inf), "==": (k, k)}[o]
    return None


def neg(iv):
    v, lo, hi = iv
    inf = float("inf")
    if lo == -inf:
        return (v, hi + 1, inf)
    if hi == inf:
        return (v, -inf, lo - 1)
    return None


def ranges(P, fn, ctx_chain):
    out = {}
    for i, c in enumerate(ctx_chain[:-1]):
        if c["k"] == "If":
            iv = cond_interval(P, fn, c["cond"])
            if not iv:
                continue
            nxt = ctx_chain[i + 1]
            if nxt is c.get("else"):
                iv = neg(iv)
                if not iv:
                    continue
            elif nxt is not c.get("then"):
                continue
            v, lo, hi = iv
            a, b = out.get(v, (-float("inf"), float("inf")))
            out[v] = (max(a, lo), min(b, hi))
    return out


def judge(P, R, x, key, A, op, guard):
    fn = x.fn
    chain = None
    for n, ctx in walkctx(fn.body):
        if n is x.n:
            chain = list(ctx) + [n]
    srange = ranges(P, fn, chain) if chain else {}
    kinds = {}
    for k, f, n, ctx in A.kinds:
        if k in ("SET", "SCALE", "?"):
            continue
        # an accumulation that cannot happen in the same configuration as this reduction
        ar = ranges(P, f, list(ctx) + [n])
        if any(v in ar and (max(ar[v][0], lo) > min(ar[v][1], hi)) for v, (lo, hi) in srange.items()):
            continue
        kinds.setdefault(k, []).append((f, n, ctx))
    if not kinds and A.sizes and op is not None and x.kind != "one":
        R.count("operator_obligations")
        if op != "sum":
            R.viol(key + "|op", x.where, "%s: an entity count of this rank is combined with %s instead of summed" % (fn.q, op))
        for f, u in A.sizes:
            bad_range(P, R, key, f, u, "count")
        return
    if not kinds:
        R.count("contributions_without_accumulation")
        return
    for k, occ in kinds.items():
        if k not in OK:
            continue
        R.count("operator_obligations")
        R.sample("%s %s accumulated by %s, combined with %s" % (x.where, show(P, fn, x.args[0]), k, op))
        if op not in OK[k]:
            f, n, ctx = occ[0]
            R.viol(key + "|op", x.where, "%s: contribution %s is accumulated as %s (at %s) but combined across ranks with %s" %
                   (fn.q, show(P, fn, x.args[0]), k, P.where(f, n), op))
        if k == "SUM":
            for f, n, ctx in occ:
                for c in ctx:
                    if c["k"] == "For":
                        b = loop_bound(c)
                        if b is not None and not owned_guard(P, f, c, n):
                            bad_range(P, R, key, f, b, "sum")
    for v, f, n in A.inits:
        if v == "expr" or v is None:
            continue
        if n["k"] != "Decl" and any(c["k"] == "If" for c in ()):
            continue
        R.count("start_value_obligations")
        if "SUM" in kinds and abs(v) > 1e-12:
            R.viol(key + "|init", P.where(f, n), "%s: the sum reduced at %s starts from %g on every rank" % (fn.q, x.where, v))
        if "MIN" in kinds and v <= 0:
            R.viol(key + "|init", P.where(f, n), "%s: the minimum reduced at %s starts from %g" % (fn.q, x.where, v))
        if "MAX" in kinds and v > 0:
            R.viol(key + "|init", P.where(f, n), "%s: the maximum reduced at %s starts from %g" % (fn.q, x.where, v))


OWN = ("NumCell", "NumNode", "NumBnd", "NumFace")


def is_owned_test(P, f, c):
    for m in walk(c):
        if m["k"] == "MCall":
            q = P.callee_q(f, m) or ""
            nm = q.rsplit("::", 1)[-1]
            if nm in OWN or (nm == "Size" and "ArrayPair" not in q):
                return True
        if m["k"] == "Ref" and m["id"] is not None:
            ini = init_of(P, f, m["id"])
            if ini is not None and ini["k"] == "MCall" and (P.callee_q(f, ini) or "").rsplit("::", 1)[-1] in OWN + ("Size",):
                return True
    return False


def init_of(P, f, vid):
    for d in walk(f.body):
        if d["k"] == "Decl":
            for v in d["vars"]:
                if v["id"] == vid and v.get("init"):
                    return unwrap(v["init"])
    return None


def owned_guard(P, f, loop, node):
    """between the loop and the accumulation something compares an index with the owned count"""
    for n, ctx in walkctx(loop["body"]):
        if n is node:
            for i, c in enumerate(ctx):
                if c["k"] == "If" and is_owned_test(P, f, c["cond"]):
                    return True
                if c["k"] == "Seq":
                    nxt = ctx[i + 1] if i + 1 < len(ctx) else n
                    for st in c["c"]:
                        if st is nxt:
                            break
                        if st["k"] == "If" and any(y["k"] in ("Continue", "Break", "Return") for y in walk(st)) and is_owned_test(P, f, st["cond"]):
                            return True
    return False


def bad_range(P, R, key, f, b, what):
    R.count("range_obligations")
    # faces on a partition border are stored once; only cells, nodes and boundary elements have ghost copies
    S = [unwrap(b)]
    n = S[0]
    if n["k"] == "Ref":
        vid = n["id"]
        for g in closure(P, f):
            for d in walk(g.body):
                if d["k"] == "Decl":
                    for v in d["vars"]:
                        if v["id"] == vid and v.get("init"):
                            n = unwrap(v["init"])
    for m in walk(n):
        if m["k"] == "MCall":
            q = P.callee_q(f, m) or ""
            nm = q.rsplit("::", 1)[-1]
            if nm in ("NumCellProc", "NumNodeProc", "NumBndProc") or (nm == "Size" and "ArrayPair" in q):
                R.viol(key + "|range", P.where(f, m), "%s: a %s reduced over ranks runs over %s, which counts ghost entities once more" % (f.q, what, show(P, f, m)))


def used(P, R, x, key, fn, ps, pr):
    R.count("result_obligations")
    stale(P, R, x, key, fn, ps, pr)
    if not pr or pr[0] != "V":
        return
    vid = pr[1]
    v = fn.tu.vars[vid]
    ty = fn.tu.types[v["t"]]
    if ty.endswith("&") or ty.endswith("*"):
        return
    outer = fn
    scope = closure(P, fn)
    if fn.outer and fn.outer in P.fns:
        scope = closure(P, P.fns[fn.outer])
    declared_here = any(d["k"] in ("Decl",) and any(y["id"] == vid for y in d["vars"]) for f in scope for d in walk(f.body))
    if not declared_here:
        return
    reads = 0
    after = False
    local_reads = []
    for f in scope:
        for n, ctx in walkctx(f.body):
            if n is x.n:
                after = True
                continue
            if n["k"] == "Ref" and n["id"] == vid and not any(c is x.n for c in ctx):
                par = ctx[-1] if ctx else None
                if par and par["k"] == "Asg" and par["op"] == "=" and par["a"] is n:
                    continue
                if f is not fn or n.get("l", 0) >= x.n.get("l", 0) or in_loop(fn, x.n):
                    reads += 1
    if x.kind != "one" and reads == 0:
        R.viol(key + "|unused", x.where, "%s: the result of the reduction into %s is never used" % (fn.q, show(P, fn, x.args[1])))
    elif x.kind == "one" and reads == 0:
        R.viol(key + "|unused", x.where, "%s: the reduced value %s is never used" % (fn.q, show(P, fn, x.args[0])))


def stale(P, R, x, key, fn, ps, pr):
    """a floating-point contribution reduced into another variable: the rank-local part is not read any more afterwards (up to its next
    assignment), except to be printed or contributed again"""
    if x.kind in ("Scan", "Iscan", "one") or not ps or not pr or ps == pr or ps[0] != "V":
        return
    ty = fn.tu.types[fn.tu.vars[ps[1]]["t"]]
    if not re.search(r"\bdouble\b|\bfloat\b", ty) or ty.rstrip().endswith("*"):
        return
    if ps[1] in fn.params:
        return
    R.count("stale_reads_checked")
    after = False
    for n, ctx in walkctx(fn.body):
        if n is x.n:
            after = True
            continue
        if not after or any(c is x.n for c in ctx):
            continue
        if n["k"] == "Ref" and n["id"] == ps[1]:
            chain = list(ctx) + [n]
            if any(c["k"] == "Lambda" for c in ctx):
                continue
            for i, c in enumerate(chain[:-1]):
                if c["k"] in ("Call", "MCall") and (P.callee_q(fn, c) or "").startswith(("DNDS::MPI::", "MPI_", "fmt::")):
                    break
                if c["k"] == "OpCall" and c["op"] == "<<":
                    break
                if c["k"] == "Bin" and c["op"] == "<<":
                    break
                if c["k"] == "Asg" and chain[i + 1] is c["a"]:
                    return          # takes a new value here
                if c["k"] == "OpCall" and c["op"].endswith("=") and c["op"] not in ("==", "!=", "<=", ">=") and c.get("args") and chain[i + 1] is c["args"][0]:
                    return
                if c["k"] == "MCall" and c.get("b") is chain[i + 1] and (P.callee_q(fn, c) or "").rsplit("::", 1)[-1] in RESET:
                    return
            else:
                R.viol(key + "|stale", P.where(fn, n), "%s: the rank-local part %s is used after its reduction into %s at %s" %
                       (fn.q, show(P, fn, n), show(P, fn, x.args[1]), x.where))
                return


def in_loop(fn, node):
    for n, ctx in walkctx(fn.body):
        if n is node:
            return any(c["k"] in ("For", "RFor", "While", "Do") for c in ctx)
    return False


def exclusive(P, R, x, key, fn, ps, pr):
    """inclusive scan result minus own contribution"""
    R.count("prefix_obligations")
    names = {show(P, fn, strip(x.args[0]))}
    s = strip(x.args[0])
    if s["k"] == "Un" and s["op"] == "&":
        names.add(show(P, fn, s["e"]))
    if ps[0] == "V":
        for d in walk(fn.body):
            if d["k"] == "Decl":
                for v in d["vars"]:
                    if ("V", v["id"]) == ps and v.get("init"):
                        names.add(show(P, fn, unwrap(v["init"])))
    seen = None
    for op, a, b, n, ctx in assigns(P, fn, fn.body):
        if op == "-=" and path(P, fn, a) == pr:
            seen = n
            if path(P, fn, b) == ps or show(P, fn, unwrap(b)) in names:
                return
            R.viol(key + "|prefix", P.where(fn, n), "%s: the prefix sum over %s is made exclusive by subtracting %s" %
                   (fn.q, sorted(names)[0], show(P, fn, b)))
            return
    for n in walk(fn.body):
        if n["k"] == "Bin" and n["op"] == "-" and path(P, fn, n["a"]) == pr and \
                (path(P, fn, n["b"]) == ps or show(P, fn, unwrap(n["b"])) in names):
            return
    R.viol(key + "|prefix", x.where, "%s: the inclusive prefix sum into %s is used without subtracting this rank's own contribution" % (fn.q, show(P, fn, x.args[1])))


def one_wrapper(P, R, x):
    """AllreduceOne*: value in, reduced value out"""
    fn = x.fn
    pv = ("V", fn.params[0])
    pr = path(P, fn, x.args[1])
    ps = path(P, fn, x.args[0])
    R.count("one_value_wrappers")
    ok = ps == pv and any(op == "=" and path(P, fn, a) == pv and path(P, fn, b) == pr for op, a, b, n, c in assigns(P, fn, fn.body))
    if not ok and pr == pv:
        ok = True
    if not ok:
        R.viol(fn.q + "|wrapper", x.where, "%s: the caller's value is not replaced by the reduced one" % fn.q)
    opn = strip(x.args[4])
    if not (opn["k"] == "Ref" and opn["id"] in fn.params):
        R.viol(fn.q + "|wrapper-op", x.where, "%s: the caller's operator is not the one applied" % fn.q)


def omp(P, R, CG):
    """thread reductions: clause operator = accumulation in the loop; user-declared sums start from a zeroed variable"""
    for fn in list(P.fns.values()):
        if fn.dep:
            continue
        reds = {}
        for n in walk(fn.body):
            if n["k"] == "Decl":
                for d in n.get("reds", ()):
                    reds.setdefault(d["n"], []).append(d)
        for n, ctx in walkctx(fn.body):
            if n["k"] != "OMP":
                continue
            for c in n.get("cl", ()):
                if c["c"] != "reduction":
                    continue
                kind = OMPOP.get(c["op"].replace("operator", "").strip())
                decl = None
                if kind is None:
                    ds = [d for d in reds.get(c["op"], []) if d["l"] <= n["l"]]
                    if not ds:
                        continue
                    decl = ds[-1]
                    A = Acc.__new__(Acc)
                    A.P, A.CG, A.kinds, A.inits, A.sizes = P, None, [], [], []
                    for op, a, b, m, cx in assigns(P, fn, decl["comb"]):
                        if path(P, fn, a) == ("V", decl["out"]):
                            A._assign(fn, op, a, b, m, cx, ("V", decl["out"]), 0, set())
                    ks = {k[0] for k in A.kinds}
                    kind = ks.pop() if len(ks) == 1 else None
                for v in c["v"]:
                    p = path(P, fn, v)
                    R.count("thread_reductions")
                    if kind is None or not p:
                        continue
                    B = Acc(P, CG, fn, p)
                    inside = {}
                    ids = set()
                    for x in walk(n["body"]):
                        ids.add(id(x))
                    lam = [f for f in closure(P, fn)]
                    for k, f, m, cx in B.kinds:
                        if (f is fn and id(m) in ids) or f is not fn:
                            inside.setdefault(k, []).append((f, m))
                    for k, occ in inside.items():
                        if k in ("SUM", "MIN", "MAX", "ANY", "ALL") and k != kind:
                            R.viol("%s|omp|%s" % (fn.q, show(P, fn, v)), P.where(fn, n), "%s: threads combine %s with %s but accumulate it as %s (at %s)" %
                                   (fn.q, show(P, fn, v), c["op"], k, P.where(*occ[0])))
                        elif k.startswith("FLAG") and kind not in (("ANY", "MAX", "SUM") if k == "FLAG1" else ("ALL", "MIN", "PROD")):
                            R.viol("%s|omp|%s" % (fn.q, show(P, fn, v)), P.where(fn, n), "%s: threads combine the flag %s with %s" % (fn.q, show(P, fn, v), c["op"]))
