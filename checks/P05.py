"""P05: what a serializer wrote is what it reads back: keys, types, fields, guards, paths, offsets, both back ends."""
from prog import *
from expr import *
from callgraph import CallGraph
from serio import *

ASSERTS = ("DNDS_assert", "DNDS_check", "assert")


def local_flow(P, fr, vid, members, sources):
    """members reached from / feeding a local variable inside the frame's function"""
    out, seen, work = set(), set(), [vid]
    fns = closure(P, fr.fn)
    T = members.__self__

    def has(n, v):
        return any(x["k"] == "Ref" and (x["id"] == v or fr.fn.tu.vars[x["id"]].get("of") == v) for x in walk(n))
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        for f in fns:
            for n in walk(f.body):
                k = n["k"]
                if k in ("Decl", "RFor"):
                    for d in n["vars"]:
                        i = n["range"] if k == "RFor" else d.get("init")
                        if i is None:
                            continue
                        if sources and d["id"] == v:
                            out |= members(fr, i)
                        elif not sources and has(i, v):
                            work.append(d["id"])
                            for b in range(len(fr.fn.tu.vars)):
                                pass
                elif k == "Asg" or k == "OpCall" and n["op"] in ("=", "+=", "<<") and len(n["args"]) == 2:
                    a, b = (n["a"], n["b"]) if k == "Asg" else n["args"]
                    pa = path(P, f, a)
                    if pa is None:
                        x = [y for y in walk(a) if y["k"] in ("Mem", "Ref")]
                        pa = path(P, f, x[0]) if x else None
                    if sources:
                        if pa and pa[:2] == ("V", v):
                            out |= members(fr, b)
                    elif has(b, v):
                        if pa and pa[0] == "V" and len(pa) == 2:
                            work.append(pa[1])
                        out |= members(fr, a)
                elif not sources and (k == "Bin" and n["op"] in ("==", "!=", "<", ">", "<=", ">=") or k == "OpCall" and n["op"] in ("==", "!=")):
                    a, b = (n["a"], n["b"]) if k == "Bin" else n["args"]
                    if has(a, v):
                        out |= members(fr, b)
                    elif has(b, v):
                        out |= members(fr, a)
                elif k == "MCall":
                    if sources and n.get("b") is not None and path(P, f, n["b"]) == ("V", v):
                        for a in n["args"]:
                            out |= members(fr, a)
                    elif not sources and any(has(a, v) for a in n["args"]):
                        q = P.callee_q(f, n) or ""
                        if not q.startswith(SER):
                            out |= members(fr, n["b"]) if n.get("b") else set()
                            for a in n["args"]:
                                if not has(a, v):
                                    out |= members(fr, a)
                elif k == "Call" and not sources and any(has(a, v) for a in n["args"]):
                    for a in n["args"]:
                        if not has(a, v):
                            out |= members(fr, a)
    return out, seen


def fields(P, T, e, side):
    """object fields carried by a write (side W) or filled by a read (side R); the second value: used at all"""
    out = set()
    used = True
    for p in (e.mem if side == "W" else ({e.tgt} if e.tgt else e.mem)):
        if p[0] == "T":
            out.add(p)
        elif p[0] == "L" and len(p) >= 3:
            fr = next((f for f in (e.f,) if True), None)
            fr = owner_frame(e, p)
            if fr is None:
                continue
            o, seen = local_flow(P, fr, p[2], T.members, side == "W")
            out |= {x for x in o if x[0] == "T"}
    return out


def owner_frame(e, p):
    for f in (e.f,) + tuple(getattr(e, "frames", ())):
        if f.fid == p[1]:
            return f
    return None


def compatible(a, b):
    return any(x[:len(y)] == y or y[:len(x)] == x for x in a for y in b)


def gset(e):
    out = set()
    for g in e.g:
        out.add((g[0], g[1]))
    return out


def file_derived(e):
    return any(any(m[0] == "L" for m in g[2]) for g in e.g)


def gshow(gs):
    return " and ".join(sorted(("" if p else "not ") + t for p, t in gs)) or "always"


def pk(k):
    return "/".join(x for x in k)


def rel(k, n):
    return k


def run(R, tier):
    P = Program(all_tus(QUICK_MODELS if tier != "thorough" else None))
    CG = CallGraph(P)
    T = Tracer(P, CG)
    R.rule("keys: every key that is read is written with the same type at the same path under the same condition, every written key that carries object data is read")
    R.rule("fields: the object field a key is read into (directly or through a local) is the field it was written from")
    R.rule("navigation: writers create the groups they enter, readers never create, every function leaves the serializer at the path it found; no key is written twice")
    R.rule("offset typestate: a vector written with a per-rank layout is read with an offset that is still Unknown at that call, one written as One is read with One; a data read follows its size query")
    R.rule("byte counts: the divisor that turns a byte size into elements is the multiplier used when writing")
    R.rule("back ends: the Write and Read member of each data kind use the same sub-keys, element type and storage type; the shared-vector registries keep their vectors alive")
    R.assume("HDF5, nlohmann::json, zlib and base64 store and return what they are given")

    roots = {}
    sessions = []
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.dep or f.q.startswith("DNDS::Serializer::") or f.info.get("lambda"):
            continue
        takes = any(is_ser_type(f.tu.types[f.tu.vars[p]["t"]]) for p in f.params)
        opens = not takes and any(n["k"] == "MCall" and (P.callee_q(f, n) or "").startswith(SER) and (P.callee_q(f, n) or "").endswith("::OpenFile") for g in closure(P, f) for n in walk(g.body))
        if takes:
            m = re.match(r"(.*)(Write|Read)(\w*)$", f.name)
            if not m:
                continue
            pre = f.key.split("::" + f.name + " ::")[0]
            roots.setdefault((pre, m.group(1), m.group(3)), {})[m.group(2)] = f
        elif opens:
            sessions.append(f)

    allkeys = {}          # (template function q, key) -> types written in any instantiation
    traced = {}

    def trace(f):
        if f.key not in traced:
            ev = T.run(f)
            traced[f.key] = (ev, list(T.problems))
        return traced[f.key]

    for k, d in sorted(roots.items()):
        if "Write" in d:
            for e in trace(d["Write"])[0]:
                if e.kind == "W":
                    allkeys.setdefault((d["Write"].q, pk(e.key)), set()).add(e.ty)
    seenv = set()

    def viol(key, f, n, text):
        w = P.where(f, n)
        if (key, w) in seenv:
            return
        seenv.add((key, w))
        R.viol("%s|%s" % (key, w.split(":")[0]), w, text)

    def problems(f):
        for g, n, t in trace(f)[1]:
            if t.startswith("?"):
                R.count("undecided_paths")
                continue
            viol("path:%s" % g.q, g, n, "%s: %s" % (g.q, t))

    def compare(wq, W, Rd, rname, wname, check_fields=True, sess=False):
        wk, rk = {}, {}
        for e in W:
            if e.kind == "W":
                wk.setdefault(pk(e.key), []).append(e)
        for e in Rd:
            if e.kind == "R":
                rk.setdefault(pk(e.key), []).append(e)
        for k, es in rk.items():
            if "?" in k:
                R.count("undecided_keys")
                continue
            for e in es:
                R.count("read_obligations")
                if e.null:
                    continue
                opt = file_derived(e)
                cand = [w for w in wk.get(k, []) if w.ty == e.ty]
                if not wk.get(k):
                    if opt and (e.ty in allkeys.get((wq, k), ()) or any(e.ty in v and kk[1].endswith("/" + e.key[-1]) for kk, v in allkeys.items())):
                        continue
                    viol("read-not-written:%s:%s" % (wq, k.split("/", 1)[-1]), e.f.fn, e.n, "%s reads key '%s' (%s), which %s never writes" % (rname, k, e.ty, wname))
                    continue
                if not cand:
                    viol("type:%s:%s" % (wq, k.split("/", 1)[-1]), e.f.fn, e.n, "%s reads key '%s' as %s, but %s writes it as %s" % (rname, k, e.ty, wname, "/".join(sorted({w.ty for w in wk[k]}))))
                    continue
                if not opt and not any(gset(w) == gset(e) for w in cand):
                    viol("guard:%s:%s" % (wq, k.split("/", 1)[-1]), e.f.fn, e.n, "%s reads key '%s' when (%s), but %s writes it when (%s)" % (
                        rname, k, gshow(gset(e)), wname, " / ".join(gshow(gset(w)) for w in cand)))
                    continue
                if check_fields:
                    ok, known = False, False
                    fr = fields(P, T, e, "R")
                    for w in cand:
                        fw = fields(P, T, w, "W")
                        if not fw or not fr:
                            ok = ok or not (fw and not fr and e.tgt and e.tgt[0] == "L" and not used(P, e))
                            continue
                        known = True
                        ok = ok or compatible(fw, fr)
                    R.count("field_pairs", 1 if known else 0)
                    if not ok:
                        fw = set().union(*[fields(P, T, w, "W") for w in cand])
                        viol("field:%s:%s" % (wq, k.split("/", 1)[-1]), e.f.fn, e.n, "key '%s' is written from %s but read into %s" % (
                            k, ", ".join(sorted(".".join(map(str, x[1:])) for x in fw)), ", ".join(sorted(".".join(map(str, x[1:])) for x in fr)) or "nothing"))
                # offsets
                if e.off is not None:
                    R.count("offset_obligations")
                    wo = set().union(*[w.off or set() for w in cand])
                    if "?" in e.off:
                        R.count("undecided_offsets")
                    elif wo == {"One"}:
                        if e.off != {"One"}:
                            viol("offset:%s:%s" % (wq, k.split("/", 1)[-1]), e.f.fn, e.n, "key '%s' is written as one array (offset One) but read with offset %s" % (k, "/".join(sorted(e.off))))
                    elif "One" not in wo:
                        q = any(x.null for x in es)
                        want = {"Dist", "Unknown"} if q else {"Unknown"}
                        if not e.off <= want:
                            viol("offset:%s:%s" % (wq, k.split("/", 1)[-1]), e.f.fn, e.n,
                                 "key '%s' is read with an offset that an earlier read already resolved (%s): the size query then yields no data" % (k, "/".join(sorted(e.off))))
            for e in es:
                if e.null and e.off is not None and not ("?" in e.off) and not e.off <= {"Unknown", "One"}:
                    viol("offset:%s:%s" % (wq, k.split("/", 1)[-1]), e.f.fn, e.n, "size query of '%s' with an offset that is already %s" % (k, "/".join(sorted(e.off))))
        for k, es in wk.items():
            for e in es:
                R.count("write_obligations")
                fw = fields(P, T, e, "W")
                if not fw or "?" in k:
                    continue
                cand = [r for r in rk.get(k, []) if r.ty == e.ty]
                if not cand:
                    viol("written-not-read:%s:%s" % (wq, k.split("/", 1)[-1]), e.f.fn, e.n, "%s writes %s under key '%s' (%s), which %s never reads back" % (
                        wname, ", ".join(sorted(".".join(map(str, x[1:])) for x in fw)), k, e.ty, rname))
                elif not any(gset(r) == gset(e) or file_derived(r) for r in cand):
                    viol("guard:%s:%s" % (wq, k.split("/", 1)[-1]), e.f.fn, e.n, "%s writes key '%s' when (%s), but %s reads it when (%s)" % (
                        wname, k, gshow(gset(e)), rname, " / ".join(gshow(gset(w)) for w in cand)))
            for i, a in enumerate(es):
                for b in es[i + 1:]:
                    ga, gb = gset(a), gset(b)
                    if not any((not p, t) in gb for p, t in ga):
                        viol("dup:%s:%s" % (wq, k.split("/", 1)[-1]), b.f.fn, b.n, "%s writes key '%s' twice" % (wname, k))
            # byte counts
            for e in es:
                if e.ty == "Uint8Array" and e.cnt is not None:
                    cw = factor(P, e, "*")
                    for r in rk.get(k, []):
                        if r.null or r.ty != "Uint8Array":
                            continue
                        cr = resize_factor(P, T, r)
                        if cw is None or cr is None:
                            R.count("undecided_byte_counts")
                        else:
                            R.count("byte_counts")
                            if cw != cr:
                                viol("bytes:%s:%s" % (wq, k.split("/", 1)[-1]), r.f.fn, r.n, "key '%s' is written as %g bytes per element but read back as %g bytes per element" % (k, cw, cr))

    def nav(fw, fr):
        ev = trace(fw)[0]
        made = {e.key for e in ev if e.kind == "C"}
        for e in ev:
            if e.kind == "W":
                d = e.key[:-1]
                if d and d not in made and d[0] != "?":
                    viol("create:%s:%s" % (fw.q, pk(d).split("/", 1)[-1]), e.f.fn, e.n, "%s writes into group '%s', which it did not create" % (fw.q, pk(d)))
        for e in trace(fr)[0]:
            if e.kind == "C":
                viol("recreate:%s" % fr.q, e.f.fn, e.n, "%s creates group '%s' while reading: the stored data are erased or the file is refused" % (fr.q, pk(e.key)))

    npairs = 0
    for k, d in sorted(roots.items()):
        for f in d.values():
            problems(f)
        if len(d) < 2:
            R.count("unpaired_functions")
            continue
        fw, fr = d["Write"], d["Read"]
        npairs += 1
        compare(fw.q, trace(fw)[0], trace(fr)[0], fr.q, fw.q)
        nav(fw, fr)
    R.count("write_read_pairs", npairs)
    for q in sorted({d["Write"].q for d in roots.values() if len(d) == 2})[:12]:
        R.sample("pair " + q)

    # arrays made for the reader are read; their exchange types are rebuilt
    for k, d in sorted(roots.items()):
        if len(d) < 2 or "Geom" not in d["Read"].q:
            continue
        f = d["Read"]
        ev = trace(f)[0]
        top = {}
        for e in ev:
            if e.kind == "R" and e.tgt and e.tgt[0] == "T" and len(e.tgt) > 2:
                top.setdefault(e.tgt[1], e)
        fr0 = Frame(f, ("T",), 0)
        for n in walk(f.body):
            if n["k"] == "Decl":
                for v in n["vars"]:
                    if v.get("init") and unwrap(v["init"])["k"] == "This":
                        fr0.env[v["id"]] = ("p", ("T",))
        for op, a, b, n, ctx in assigns(P, f, f.body):
            if op != "=":
                continue
            p = T.abs(fr0, a)
            if p and len(p) == 3 and p[2] in ("father", "son"):
                R.count("arrays_made_by_readers")
                if p[1] not in top:
                    viol("made-not-read:%s:%s" % (f.q, p[1]), f, n, "%s makes array %s but never reads it from the file" % (f.q, p[1]))
        calls = set()
        for n in walk(f.body):
            if n["k"] == "MCall" and (P.callee_q(f, n) or "").endswith("::createMPITypes"):
                p = T.abs(fr0, n["b"])
                if p and len(p) > 1:
                    calls.add(p[1])
        if calls:
            for m, e in sorted(top.items()):
                if not any(x.kind == "R" and x.tgt and x.key[-1] == "pullingIndexGlobal" and x.key[:2] == e.key[:2] for x in ev):
                    continue
                R.count("exchange_types_after_read")
                if m not in calls:
                    viol("types:%s:%s" % (f.q, m), e.f.fn, e.n, "%s reads %s with its ghost mapping but does not create its exchange types (createMPITypes)" % (f.q, m))

    # members of the array classes are all stored
    fam = {}
    for k, d in roots.items():
        if len(d) < 2:
            continue
        cls = d["Read"].q.rsplit("::", 1)[0]
        if not re.match(r"DNDS::Array(?!Pair|Trans)", cls):
            continue
        for e in trace(d["Read"])[0]:
            if e.kind == "R" and e.tgt and e.tgt[0] == "T" and len(e.tgt) > 1:
                fam.setdefault(cls, set()).add(e.tgt[1])
            if e.kind == "R":
                for p in fields(P, T, e, "R"):
                    fam.setdefault(cls, set()).add(p[1])
    for cls, got in sorted(fam.items()):
        recs = [r for r in P.records.values() if r["q"] == cls and r.get("fields")]
        names = {x["n"] for r in recs for x in r["fields"]}
        writer = [d["Write"] for d in roots.values() if len(d) == 2 and d["Write"].q.rsplit("::", 1)[0] == cls]
        emptied = set()
        for w in writer:
            st, seen = [w], set()
            while st:
                g = st.pop()
                if g.key in seen or len(seen) > 60:
                    continue
                seen.add(g.key)
                for n in walk(g.body):
                    if n["k"] == "MCall":
                        if (P.callee_q(g, n) or "").rsplit("::", 1)[-1] in ("clear", "reset") and n.get("b"):
                            p = path(P, g, n["b"])
                            if p and p[0] == "T" and len(p) > 1:
                                emptied.add(p[1])
                        st += [t for t, _ in CG.call(g, n) if t.q.rsplit("::", 1)[0] == cls]
        for m in sorted(names):
            R.count("array_members")
            if m not in got and m not in emptied:
                viol("member:%s:%s" % (cls, m), writer[0], writer[0].body, "%s::%s is part of the array's state but is neither stored nor emptied when the array is written" % (cls, m))

    # files: what a session reads was written by a session of the same class
    ws, rs = {}, []
    for f in sessions:
        ev = trace(f)[0]
        cls = f.q.rsplit("::", 1)[0]
        cur, mode = [], None
        parts = []
        for e in ev:
            if e.kind == "O":
                cur, mode = [], e.ty
                parts.append((mode, cur, e))
            elif e.kind in "RW":
                cur.append(e)
        for mode, es, o in parts:
            for e in es:
                e.g = tuple(g for g in e.g if g[3] != 0)
            R.count("file_sessions")
            kinds = {e.kind for e in es}
            if mode is not None:
                bad = [e for e in es if (e.kind == "W") == bool(mode)]
                for e in bad[:1]:
                    viol("mode:%s" % f.q, e.f.fn, e.n, "%s %s key '%s' in a file opened for %s" % (f.q, "writes" if e.kind == "W" else "reads", pk(e.key), "reading" if mode else "writing"))
            if kinds == {"W"}:
                ws.setdefault(cls, []).append((f, es))
            elif kinds == {"R"}:
                rs.append((cls, f, es))
    for cls, f, es in rs:
        cand = ws.get(cls) or []
        tops = {e.key[0] for e in es}
        m = [(g, we) for g, we in cand if {e.key[0] for e in we} & tops] or cand
        if not m:
            R.count("sessions_without_writer")
            continue
        g, we = m[0]
        R.count("file_session_pairs")
        compare(g.q, we, es, f.q, g.q, check_fields=all(e.tgt is None or e.tgt[0] == "T" or e.f.fn is not f for e in es) and not any(e.tgt and e.tgt[0] == "L" and len(e.tgt) > 3 for e in es), sess=True)

    backend(R, P, CG, viol)
    for n, m in (("write_read_pairs", 8), ("read_obligations", 60), ("write_obligations", 60), ("field_pairs", 30), ("offset_obligations", 20), ("backend_pairs", 10)):
        R.need(n, m)


def used(P, e):
    """is the local a key is read into looked at afterwards"""
    if not e.tgt or e.tgt[0] != "L":
        return True
    vid = e.tgt[2]
    c = 0
    for f in closure(P, e.f.fn):
        for n in walk(f.body):
            if n["k"] == "Ref" and n["id"] == vid:
                c += 1
    return c > 1


def factor(P, e, op):
    n = unwrap(e.cnt)
    if n["k"] == "Ref":
        v = e.f.env.get(n["id"])
        if v and v[0] == "e":
            n = unwrap(v[1])
    if n["k"] == "Bin" and n["op"] == op:
        for x in ("a", "b"):
            c = const(n[x])
            if c is not None:
                return c
    if n["k"] == "MCall" and (P.callee_q(e.f.fn, n) or "").endswith("::size"):
        return 1
    return None


def resize_factor(P, T, r):
    for f in closure(P, r.f.fn):
        for n in walk(f.body):
            if n["k"] == "MCall" and (P.callee_q(f, n) or "").endswith("::resize") and n["args"]:
                a = unwrap(n["args"][0])
                if a["k"] == "Ref":
                    for d in walk(f.body):
                        if d["k"] == "Decl":
                            for v in d["vars"]:
                                if a["k"] == "Ref" and v["id"] == a["id"] and v.get("init") and const(v["init"]) is None:
                                    a = unwrap(v["init"])
                if T.abs(r.f, n["b"]) == r.tgt:
                    if a["k"] == "Bin" and a["op"] == "/":
                        return const(a["b"])
                    if a["k"] == "Ref" and any(strip(x)["k"] == "Ref" and strip(x)["id"] == a["id"] for x in r.n["args"]):
                        return 1
    return None


def is_key(P, f, n):
    return True


def backend(R, P, CG, viol):
    """Write/Read members of each class derived from SerializerBase"""
    meth = {}
    for f in P.fns.values():
        m = re.match(r"(DNDS::Serializer::Serializer(?!Base|Factory)\w+)::(Write|Read)(\w+)$", f.q)
        if m and not f.dep:
            meth.setdefault((m.group(1), m.group(3)), {})[m.group(2)] = f
    base = {f["n"] for r in P.records.values() if r["q"] == "DNDS::Serializer::SerializerBase" for f in r.get("methods", [])} if False else None

    def deep(f):
        """f and the repository functions it calls (same file), with template element types"""
        out, st, seen = [], [f], set()
        while st:
            g = st.pop()
            if g.key in seen:
                continue
            seen.add(g.key)
            out.append(g)
            for h in lambdas_in(P, g, g.body):
                st.append(h)
            for n in walk(g.body):
                if n["k"] in ("Call", "MCall"):
                    st += [t for t, _ in CG.call(g, n) if t.q.startswith("DNDS::Serializer::") and not t.dep and not re.search(r"::(Read|Write)(String|Int)$", t.q)]
        return out

    def strings(f):
        out = set()
        for g in deep(f):
            skip = set()
            for n in walk(g.body):
                if (n.get("m") or "").startswith(("DNDS_assert", "DNDS_check", "H5CHECK")) or n["k"] == "Call" and (P.callee_q(g, n) or "").startswith("fmt::"):
                    for x in walk(n):
                        skip.add(id(x))
            for n in walk(g.body):
                if n["k"] == "Str" and id(n) not in skip and not (n.get("m") or "").startswith(("DNDS_assert", "DNDS_check", "H5")):
                    v = n.get("v", "")
                    if v and re.match(r"^[:\w]+$", v) and v not in ("r", "w"):
                        out.add(v)
        return out

    def elems(f):
        """element types of the typed data movers that are used"""
        out = set()
        for g in deep(f):
            m = re.search(r"(?:DataVector|AttributeScalar)<([^>]*(?:<[^>]*>)?)", g.key)
            if m and g.q.startswith("DNDS::Serializer::"):
                out.add(m.group(1).split(",")[0])
        return out

    def h5t(f):
        """storage type identifiers of the typed mover"""
        out = set()
        for g in deep(f):
            if not re.search(r"(DataVector|AttributeScalar)", g.q):
                continue
            for n in walk(g.body):
                if n["k"] == "Ref" and re.match(r"H5T_(NATIVE|STD|IEEE)\w*_g$", n["n"]):
                    out.add(n["n"])
                elif n["k"] == "Call" and "H5T_" in (P.callee_q(g, n) or ""):
                    out.add(P.callee_q(g, n))
        return out

    for (cls, x), d in sorted(meth.items()):
        if x.endswith("PerRank"):
            continue
        if len(d) < 2:
            f = list(d.values())[0]
            continue
        w, r = d["Write"], d["Read"]
        R.count("backend_pairs")
        sw, sr = strings(w), strings(r)
        # a reader may probe more than it needs, but every sub-key that carries data is used on both sides
        if sw != sr:
            viol("backend-keys:%s:%s" % (cls, x), r, r.body, "%s::Write%s stores under sub-keys {%s} but Read%s looks under {%s}" % (cls, x, ", ".join(sorted(sw)), x, ", ".join(sorted(sr))))
        ew, er = elems(w), elems(r)
        if ew != er:
            viol("backend-elem:%s:%s" % (cls, x), r, r.body, "%s::Write%s stores elements of {%s} but Read%s fetches {%s}" % (cls, x, ", ".join(sorted(ew)), x, ", ".join(sorted(er))))
        hw, hr = h5t(w), h5t(r)
        if hw != hr:
            viol("backend-h5t:%s:%s" % (cls, x), r, r.body, "%s::Write%s uses storage types {%s}, Read%s {%s}" % (cls, x, ", ".join(sorted(hw)), x, ", ".join(sorted(hr))))
        # the element kind stored matches the declared parameter
        for g, tag in ((w, "Write"), (r, "Read")):
            R.count("backend_members")

    # file-level offsets and lengths of side tables
    for q in sorted({f.q for f in P.fns.values() if re.match(r"DNDS::Serializer::\w+$", f.q)}):
        pass
    # registries of shared vectors: entries must own what they stand for
    for r in P.records.values():
        if not re.match(r"DNDS::Serializer::Serializer(?!Base|Factory)\w+$", r["q"]):
            continue
        tu = r.get("_tu")
        for x in r.get("fields", []):
            t = x["t"] if isinstance(x["t"], str) else (tu.types[x["t"]] if tu else "")
            if re.search(r"map<.*(\bvoid \*|shared_ptr<(const )?void>)", t):
                R.count("registries")
                if "void *" in t:
                    viol("registry:%s:%s" % (r["q"], x["n"]), next(f for f in P.fns.values() if f.q.startswith(r["q"] + "::")), {"k": "x", "l": x.get("l", 0)},
                         "%s::%s maps raw addresses (%s): when a vector is released before the file is closed, its address stands for another vector" % (r["q"], x["n"], t))
