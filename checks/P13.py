"""P13: loops that run on several threads are free of data races."""
from prog import *
from expr import show
from callgraph import CallGraph
from effects import Effects


OWNED = {("DNDS::Geom::UnstructuredMesh::InterpolateFace", "this.cell2face"):
         "each entry of cell2face belongs to exactly one face (the mesh has no two faces with the same vertices), so that the loop over ghost faces writes every entry once"}


def run(R, tier):
    P = Program(all_tus())
    CG = CallGraph(P)
    E = Effects(P, CG)
    R.rule("Effect analysis over the call graph: for every OpenMP parallel loop, the storage each iteration reads and writes (through references, views, "
           "closures and calls) is expressed by the shared object it belongs to and the index used. Every write to shared storage has to be at the loop's own "
           "index, or inside a critical/atomic section or a reduction; storage written at the own index may not be accessed at another index in the same loop; "
           "storage guarded by a section may not be accessed outside of it; vector<bool> elements are not separate storage.")
    done = set()
    for fn in P.fns.values():
        if fn.dep or not fn.body:
            continue
        for n in walk(fn.body):
            if n["k"] == "OMP" and "parallel" in n.get("dir", ""):
                w = P.where(fn, n)
                region(R, P, E, fn, n, w)
    R.count("calls_summarised", E.ncalls)
    R.need("parallel_loops", 60)


def region(R, P, E, fn, n, w):
    R.count("parallel_loops")
    body = n.get("body")
    priv = set()
    for c in n.get("cl", ()):
        if c["c"] in ("private", "firstprivate", "lastprivate", "reduction", "linear"):
            for v in c["v"]:
                v = strip(v)
                if v and v["k"] == "Ref":
                    priv.add(v["id"])
    lv = set()
    loop = body
    while loop is not None and loop["k"] == "Seq" and len(loop["c"]) == 1:
        loop = loop["c"][0]
    if loop is not None and loop["k"] == "For" and loop.get("init") and "for" in n["dir"]:
        for x in walk(loop["init"]):
            if x["k"] == "Decl":
                lv |= {v["id"] for v in x["vars"]}
            elif x["k"] == "Asg":
                t = strip(x["a"])
                if t and t["k"] == "Ref":
                    lv.add(t["id"])
                    priv.add(t["id"])
    inside = set()
    for x in walk(body):
        if x["k"] in ("Decl", "RFor"):
            for v in x["vars"]:
                inside.add(v["id"])
                inside |= set(v.get("binds", ()))
    own = set(lv)
    # a loop over the block of the own index
    for x in walk(body):
        if x["k"] == "For" and x is not loop and x.get("init"):
            for d in walk(x["init"]):
                if d["k"] == "Decl":
                    for v in d["vars"]:
                        if v.get("init") and block(P, fn, x, v, own):
                            own.add(v["id"])
    pidx = E.decl(fn)["pidx"]
    priv = {("V", v) for v in priv} | {("P", pidx[v]) for v in priv if v in pidx}
    lamin, lamout = set(), set()
    inreg = {id(x) for x in walk(body) if x["k"] == "Lam"}
    for x in walk(fn.body):
        if x["k"] == "Lam":
            for fi in x["fns"]:
                k = fn.tu.fns[fi].get("key")
                if k:
                    (lamin if id(x) in inreg else lamout).add(k)
    out = []
    E.ev(fn, loop["body"] if loop is not None and loop["k"] == "For" else body, out, None)

    def isown(i):
        if i[0] == "V":
            return i[1] in own
        return False

    acc = {}
    for mode, r, s, g, f2, node, cap in out:
        if r[0] == "V" and r[1] in inside or r in priv and cap not in lamout:
            continue
        if r[0] == "G" and constglobal(P, r[1]):
            continue
        names = tuple(x for x in s if not isinstance(x, tuple))
        if r == ("T",) and not names and mode == "r":
            continue
        idx = None
        bits = "<bits>" in names
        for x in s:
            if isinstance(x, tuple):
                if any(isown(i) for i in x[1:]):
                    idx = "own"
                    break
                sh = [i for i in x[1:] if i[0] == "o" and isown(i[1])]
                if sh:
                    idx = ("shift", sh[0][2])
                    break
        if bits:
            idx, names = None, tuple(x for x in names if x != "<bits>")
        acc.setdefault((r, names), []).append((mode, idx, g, f2, node))
    R.count("accesses", len(out))
    R.count("shared_objects", len(acc))

    def nm(r, names):
        root = {"T": "this", "X": str(r[1]) if r[0] == "X" else "", "G": str(r[-1]), "V": fn.tu.vars[r[1]]["n"] if r[0] == "V" else "", "P": fn.tu.vars[pid(fn, r[1])]["n"] if r[0] == "P" else ""}[r[0]]
        return ".".join([root] + list(names))
    seen = set()
    for (r, names), lst in acc.items():
        writes = [a for a in lst if a[0] == "w"]
        if not writes:
            continue
        R.count("written_objects")
        rel = []
        for (r2, n2), l2 in acc.items():
            if r2 == r and (n2[:len(names)] == names or names[:len(n2)] == n2):
                rel += l2
        for mode, idx, g, f2, node in writes:
            bad = None
            if g:
                un = [a for a in rel if a[2] != g and not (a[1] == idx == "own")]
                if un:
                    bad = "is written inside a %s section but accessed %s at %s" % (
                        g.replace(":", " "), "in another one (%s)" % un[0][2].replace(":", " ") if un[0][2] else "outside of one", P.where(un[0][3], un[0][4]))
            elif idx is None:
                bad = "is written by every thread without being private, reduced, guarded or indexed by the loop variable"
            else:
                un = [a for a in rel if a[1] != idx]
                if un:
                    bad = "is written at the loop's own index and accessed at another one at %s" % P.where(un[0][3], un[0][4])
            if bad:
                # a parameter is identified by its position: its name is not part of what it does
                key = "%s|%s" % (fn.q, ".".join(["#%d" % r[1]] + list(names)) if r[0] == "P" else nm(r, names))
                if (fn.q, nm(r, names)) in OWNED:
                    R.assume("%s: %s" % (fn.q, OWNED[fn.q, nm(r, names)]))
                    break
                if key not in seen:
                    seen.add(key)
                    R.viol(key, P.where(f2, node), "parallel loop at %s in %s: %s %s" % (w, fn.q, nm(r, names), bad))
                break


def pid(fn, i):
    p = fn.params[i]
    return p["id"] if isinstance(p, dict) else p


def block(P, fn, x, v, own):
    def mentions(n):
        return any(y["k"] == "Ref" and y["id"] in own for y in walk(n))
    return mentions(v["init"]) and x.get("cond") is not None and mentions(x["cond"])


def constglobal(P, q):
    g = P.globals.get(q)
    return bool(g and "const" in g["_tu"].types[g["d"]["t"]])
