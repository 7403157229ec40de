"""P02: every message describes its buffers: element type, number of elements, distinct buffers, faithful wrappers."""
from prog import *
from expr import *
from mpisites import *
from sym import Sym, lindiff, fixed_size

BUILTIN = {"ompi_mpi_int": {"int"}, "ompi_mpi_int32_t": {"int"}, "ompi_mpi_int64_t": {"long", "long long"}, "ompi_mpi_long": {"long"},
           "ompi_mpi_uint64_t": {"unsigned long", "unsigned long long"}, "ompi_mpi_unsigned_long": {"unsigned long"},
           "ompi_mpi_uint32_t": {"unsigned int"}, "ompi_mpi_unsigned": {"unsigned int"}, "ompi_mpi_double": {"double"},
           "ompi_mpi_real8": {"double"}, "ompi_mpi_float": {"float"}, "ompi_mpi_real4": {"float"}, "ompi_mpi_char": {"char"},
           "ompi_mpi_int8_t": {"signed char"}, "ompi_mpi_uint8_t": {"unsigned char"}, "ompi_mpi_int16_t": {"short"},
           "ompi_mpi_uint16_t": {"unsigned short"}, "ompi_mpi_long_double": {"long double"}, "ompi_mpi_long_long_int": {"long long"},
           "ompi_mpi_cxx_bool": {"bool"}}
SCALAR = {"int", "long", "unsigned long", "unsigned int", "double", "float", "char", "short", "bool", "long long", "unsigned long long",
          "unsigned char", "signed char", "long double", "unsigned short"}


def named_types(P, R):
    """C element type that each datatype constant of the repository stands for, from its initializer"""
    out = {}
    for q, g in P.globals.items():
        init = g["d"].get("init")
        if not init:
            continue
        tu = g["_tu"]
        t = tu.types[g["d"]["t"]]
        if "ompi_datatype_t" not in t:
            continue
        init = strip(init)
        if init["k"] == "Call" and init.get("fn") is not None:
            info = tu.fns[init["fn"]]
            f = P.fns.get(info.get("key"))
            m = re.search(r"<(double|float|long|int)>", info.get("key") or "")
            if not f or not m:
                continue
            ct = m.group(1)
            ret = [n for n in walk(f.body) if n["k"] == "Return"]
            got = resolve_cond(P, f, ret[0]["e"]) if len(ret) == 1 else None
            R.count("datatype_constants")
            if got is None:
                continue
            out[q.rsplit("::", 1)[-1]] = (BUILTIN.get(got, set()), got, ct, g)
    return out


def resolve_cond(P, f, n):
    n = strip(n)
    while n and n["k"] == "Cond":
        c = const(n["c"])
        if c is None:
            return None
        n = strip(n["a"] if c else n["b"])
    return dtype_name(P, f, n)


def is_struct_pair(P, t):
    return t not in SCALAR and not t.startswith("std::") and "*" not in t


def run(R, tier):
    P = Program(all_tus())
    R.rule("At every call that moves data through MPI: the element type of each buffer is the one the datatype stands for; the element "
           "count equals the extent of both buffers (linear symbolic forms of container extents inside the function); send and receive "
           "buffers are distinct objects; the repository's wrappers hand their arguments on in order on every branch and complete the "
           "request they start; counts sent to and received from each rank agree, and the tables of an exchange belong together (positions are the "
           "prefix sums of their own counts, receive counts the exchanged send counts); the table from C++ types to datatypes maps each type to its own datatype.")
    R.assume("containers reached through parameters or members have the extent their own size() reports")
    names = named_types(P, R)
    for nm, (types, got, ct, g) in names.items():
        if ct not in types:
            R.viol("const|" + nm, "%s:%d" % (g["_file"].replace(REPO + "/", ""), g["d"]["l"]),
                   "datatype constant %s for %s is %s" % (nm, ct, got))
    if len(names) < 2:
        raise AnalysisError("P02: datatype constants of index and real not found")
    allsites = sites(P)
    assoc = tables(P, allsites)
    syms = {}
    for x in allsites:
        fn = x.fn
        R.count("transfer_sites")
        wrapper = fn.q.startswith("DNDS::MPI::") and x.q.startswith("MPI_")
        if wrapper and forwarding(P, R, x):
            continue
        bufs = []
        for b, c, t in x.sig.get("b", []):
            buf, ty = x.args[b], x.args[t]
            et = elem_type(P, fn, buf)
            dn = dtype_name(P, fn, ty)
            R.count("buffers")
            key = "%s|%s|%s" % (fn.q, x.kind, show(P, fn, buf))
            if dn == "ompi_mpi_byte":
                if et in ("", "void"):
                    continue
                R.count("type_obligations")
                cn = unwrap(x.args[c])
                sz = [n for n in walk(cn) if n["k"] == "SizeOf"]
                if et not in ("char", "unsigned char", "std::byte") and not sz:
                    R.viol(key + "|bytes", x.where, "%s: %s of %s elements is counted in bytes without the element size" % (fn.q, x.kind, et))
                for s in sz:
                    st = clean(fn.tu.types[s["of"]]) if s.get("of", -1) >= 0 else ""
                    if st and st != et:
                        R.viol(key + "|bytes", x.where, "%s: %s of %s elements is sized as %s" % (fn.q, x.kind, et, st))
                continue
            exp = None
            if dn in names:
                exp = names[dn][0]
            elif dn in BUILTIN:
                exp = BUILTIN[dn]
            elif dn in ("ompi_mpi_double_int",):
                R.count("type_obligations")
                if not pair_type(P, fn, et, ("double", "int")):
                    R.viol(key + "|type", x.where, "%s: buffer of %s for %s is not a (double,int) pair" % (fn.q, et, x.kind))
            if exp is not None and et not in ("", "void"):
                R.count("type_obligations")
                if et not in exp:
                    R.viol(key + "|type", x.where, "%s: %s moves a buffer of %s as %s" % (fn.q, x.kind, et, dn))
                R.sample("%s %s: %s as %s" % (x.where, x.kind, et, dn))
            if exp is None and dn is None and et not in ("", "void") and not wrapper:
                # datatype of an array object: T must be the element type of the same array
                array_dtype(P, R, x, fn, buf, ty, c, et)
            bufs.append((buf, c))
        if len(x.sig.get("b", [])) == 2 and not wrapper:
            a, b = x.sig["b"]
            pa, pb = path(P, fn, x.args[a[0]]), path(P, fn, x.args[b[0]])
            R.count("aliasing_obligations")
            if pa and pa == pb and show(P, fn, x.args[a[0]]) == show(P, fn, x.args[b[0]]):
                R.viol("%s|%s|alias" % (fn.q, x.kind), x.where, "%s: %s sends from and receives into %s" % (fn.q, x.kind, show(P, fn, x.args[a[0]])))
        if wrapper:
            continue
        if x.sig.get("v"):
            exchange(P, R, x, assoc)
        if (x.sig.get("gather") or x.sig.get("a2a")) and all(c is not None for b, c, t in x.sig["b"]):
            S = syms.get(fn.key)
            if S is None:
                S = syms[fn.key] = Sym(P, fn)
            cs = [S.lin(fn, x.args[c]) for b, c, t in x.sig["b"]]
            ts = [dtype_name(P, fn, x.args[t]) for b, c, t in x.sig["b"]]
            R.count("collective_pairs")
            d = lindiff(*cs)
            if ts[0] == ts[1] and d and all(not k.startswith("?") for k in d):
                R.viol("%s|%s|pair" % (fn.q, x.kind), x.where, "%s: %s sends %s elements to each rank and receives %s from each" % (fn.q, x.kind, fmt(cs[0]), fmt(cs[1])))
        for bi, (b, c, t) in enumerate(x.sig.get("b", [])):
            if c is None or strip(x.args[t]) is None:
                continue
            if dtype_name(P, fn, x.args[t]) == "ompi_mpi_byte":
                continue
            root = fn
            S = syms.get(root.key)
            if S is None:
                S = syms[root.key] = Sym(P, root)
            cnt = S.lin(fn, x.args[c])
            buf = strip(x.args[b])
            ext = None
            if buf["k"] == "Un" and buf["op"] == "&":
                inner = strip(buf["e"])
                if inner["k"] in ("Ref", "Mem") and not re.search(r"\[\d+\]$", P.type(fn, inner)):
                    ext = [{"": 1}]
                elif inner["k"] in ("OpCall", "Idx", "MCall"):
                    ext = [{"": 1}] if set(cnt) <= {""} and cnt.get("", 0) == 1 else None
            elif buf["k"] == "MCall" and (P.callee_q(fn, buf) or "").endswith("::data"):
                ext = S.extent(fn, buf["b"])
            if not ext:
                oor(R, x, cnt, ext)
                continue
            if x.sig.get("gather") and bi == 1 or x.sig.get("a2a"):
                # count is per rank: the buffer holds one slot per rank
                R.count("extent_obligations")
                ok = any(any("size" in k for k in e) for e in ext)
                c1 = cnt.get("", 0) if set(cnt) <= {""} else None
                if c1 is not None and not any(only_scaled(e, c1) for e in ext):
                    R.viol("%s|%s|gather" % (fn.q, x.kind), x.where, "%s: buffer %s of %s holds %s elements, not %s per rank" % (fn.q, show(P, fn, buf), x.kind, " or ".join(fmt(e) for e in ext), c1))
                continue
            R.count("extent_obligations")
            ds = [lindiff(cnt, e) for e in ext]
            if any(not d for d in ds):
                continue
            d0 = ds[0]
            definite = set(d0) <= {""} or all(not k.startswith("?") and "size(" not in k and "Size" not in k for k in d0) and not mixed(d0)
            if set(cnt) <= {""} and cnt.get("", 0) >= 1 and all(set(e) <= {""} for e in ext):
                definite = True
            if definite:
                R.viol("%s|%s|%s|count" % (fn.q, x.kind, show(P, fn, buf)), x.where,
                       "%s: %s moves %s elements of a buffer with %s elements" % (fn.q, x.kind, fmt(cnt), " or ".join(fmt(e) for e in ext)))
            else:
                oor(R, x, cnt, ext)
    type_table(P, R)
    R.need("transfer_sites", 60)
    R.need("type_obligations", 80)
    R.need("extent_obligations", 60)
    R.need("wrapper_calls", 8)


def leaf(P, fn, n):
    """field name, or the variable, that holds a table of counts or positions"""
    p = path(P, fn, n)
    if not p:
        return None
    return ("f", p[-1]) if len(p) > 1 and isinstance(p[-1], str) and p[0] in "VT" else (fn.tu.key if hasattr(fn.tu, "key") else id(fn.tu),) + tuple(p)


def tables(P, allsites):
    """which table of positions is the prefix sum of which table of counts, which counts are the exchanged ones of which"""
    pre, xch, room = {}, {}, {}
    for fn in P.fns.values():
        if fn.dep:
            continue
        for n in walk(fn.body):
            if n["k"] in ("Call", "MCall"):
                q = P.callee_q(fn, n) or ""
                if q.endswith("::AccumulateRowSize") and len(n["args"]) == 2:
                    a, b = (leaf(P, fn, v) for v in n["args"])
                    if a and b:
                        pre.setdefault(a, set()).add(b)
                elif n["k"] == "MCall" and q.endswith("::resize") and n.get("b") and n["args"]:
                    e = strip(n["args"][0])
                    if e and e["k"] in ("OpCall", "Idx"):
                        a, b = leaf(P, fn, n["b"]), leaf(P, fn, e)
                        if a and b:
                            room.setdefault((fn.key, a), set()).add(b)
        for op, tgt, val, n, ctx in assigns(P, fn, fn.body):
            t, v = strip(tgt), strip(val)
            if op == "=" and t and v and t["k"] in ("OpCall", "Idx") and v["k"] == "Bin" and v["op"] == "+":
                y = leaf(P, fn, t)
                ps = [leaf(P, fn, w) if strip(w) and strip(w)["k"] in ("OpCall", "Idx") else None for w in (v["a"], v["b"])]
                if y and y in ps and all(ps):
                    for w in ps:
                        if w != y:
                            pre.setdefault(w, set()).add(y)
    for x in allsites:
        if x.sig.get("a2a") and not x.fn.q.startswith("DNDS::MPI::"):
            a, b = leaf(P, x.fn, x.args[0]), leaf(P, x.fn, x.args[3])
            if a and b:
                xch.setdefault(a, set()).add(b)
                xch.setdefault(b, set()).add(a)
    return pre, xch, room


def exchange(P, R, x, assoc):
    pre, xch, room = assoc
    fn = x.fn
    sums = set().union(*pre.values()) if pre else set()
    L = [leaf(P, fn, a) for a in x.args[:8]]
    for b, c, d, what in ((0, 1, 2, "send"), (4, 5, 6, "receive")):
        R.count("exchange_obligations")
        if L[c] in pre and L[d] in sums and L[d] not in pre[L[c]]:
            R.viol("%s|%s|%s|starts" % (fn.q, x.kind, what), x.where, "%s: the %s positions %s are not the prefix sums of the %s counts %s" % (
                fn.q, what, show(P, fn, x.args[d]), what, show(P, fn, x.args[c])))
        r = room.get((fn.key, L[b]), set()) & sums
        if L[b] and r and L[d] in sums and L[d] not in r:
            R.viol("%s|%s|%s|room" % (fn.q, x.kind, what), x.where, "%s: %s has room for the entries of another table than its positions %s" % (
                fn.q, show(P, fn, x.args[b]), show(P, fn, x.args[d])))
    if L[1] in xch and L[5] in xch and L[5] not in xch[L[1]]:
        R.viol("%s|%s|counts" % (fn.q, x.kind), x.where, "%s: the receive counts %s are not the send counts %s of the other ranks" % (
            fn.q, show(P, fn, x.args[5]), show(P, fn, x.args[1])))


def oor(R, x, cnt, ext):
    R.count("extents_out_of_reach")
    if os.environ.get("DBG"):
        print("OOR", x.where, x.kind, cnt, ext)


def mixed(d):
    return False


def fmt(l):
    return " + ".join((str(v) if not k else (k if v == 1 else "%s*%s" % (v, k))) for k, v in sorted(l.items())) or "0"


def only_scaled(e, c):
    ks = [k for k in e if k]
    return len(ks) == 1 and e[ks[0]] == c and "" not in e and re.search(r"(^|\.)size$|MPIWorldSize", ks[0])


def pair_type(P, fn, t, want):
    for ty, r in P.records.items():
        if ty == t or r["q"].endswith("::" + t) or r["q"] == t:
            return True
    return is_struct_pair(P, t)


def array_dtype(P, R, x, fn, buf, ty, c, et):
    """father->getDataType(): the count has to be in multiples of getTypeMult() of the same array"""
    n = strip(ty)
    if n["k"] == "MCall" and (P.callee_q(fn, n) or "").endswith("getDataType"):
        R.count("array_datatype_sites")
        obj = show(P, fn, n["b"])
        if c is None:
            return
        mult = [m for m in walk(x.args[c]) if m["k"] == "MCall" and (P.callee_q(fn, m) or "").endswith("getTypeMult")]
        S = Sym(P, fn)
        if not mult:
            txt = fmt(S.lin(fn, x.args[c]))
            if "getTypeMult" not in txt:
                R.viol("%s|%s|mult" % (fn.q, x.kind), x.where, "%s: %s counts %s elements of the array's datatype without the number of datatype units per element" % (fn.q, x.kind, txt))


def forwarding(P, R, x):
    """a wrapper passes its parameters on in order"""
    fn = x.fn
    refs = [strip(a) for a in x.args]
    np = len(fn.params)
    roles = {}
    if np < 4:
        return False
    names = [fn.tu.vars[p]["n"] for p in fn.params]
    pos = []
    for a in refs:
        if a and a["k"] == "Ref" and a["id"] in fn.params:
            pos.append(fn.params.index(a["id"]))
        else:
            pos.append(None)
    if sum(p is not None for p in pos) < np - 1:
        return False
    R.count("wrapper_calls")
    want = list(range(np))
    if pos[:np] != want:
        bad = [i for i in range(np) if pos[i] != i]
        R.viol("%s|forward|%s" % (fn.q, x.kind), x.where, "%s: argument %d of %s is %s instead of the wrapper's own argument %s" %
               (fn.q, bad[0] + 1, x.q, show(P, fn, x.args[bad[0]]), names[bad[0]]))
    if x.kind.startswith("I") and len(x.args) == np + 1:
        rp = path(P, fn, x.args[np])
        waits = [n for n in walk(fn.body) if n["k"] == "Call" and re.search(r"Wait", P.callee_q(fn, n) or "") and any(path(P, fn, a) == rp for a in n["args"])]
        R.count("request_obligations")
        if not waits:
            R.viol("%s|wait|%s" % (fn.q, x.kind), x.where, "%s: the request of %s is not completed before the wrapper returns" % (fn.q, x.q))
    return True


def type_table(P, R):
    """BasicType_To_MPIIntType<T> instances"""
    n = 0
    for fn in P.fns.values():
        if fn.dep or fn.name != "BasicType_To_MPIIntType":
            continue
        m = re.search(r"BasicType_To_MPIIntType<(.*?)>", fn.key)
        if not m:
            continue
        t = clean(m.group(1))
        rets = [r for r in walk(fn.body) if r["k"] == "Return" and r.get("e")]
        if t in SCALAR and rets:
            dn = [dtype_name(P, fn, y) for y in walk(rets[0]["e"]) if y["k"] == "Un" or y["k"] == "Ref"]
            dn = [d for d in dn if d and d in BUILTIN]
            if dn:
                n += 1
                R.count("type_table_entries")
                if t not in BUILTIN[dn[0]] and not (t in ("bool", "char") and dn[0] in ("ompi_mpi_uint8_t", "ompi_mpi_int8_t")):
                    R.viol("table|" + t, fn.loc(), "%s maps %s to %s" % (fn.q, t, dn[0]))
