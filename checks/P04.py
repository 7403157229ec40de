"""P04: configuration survives a round trip through JSON; no option is dropped, swapped or left unread."""
import re
from collections import defaultdict
from prog import *
from expr import *
from jsonio import *

RULE = ("For every class with JSON input/output: a key is read exactly if it is written (per boundary type where a switch decides), under "
        "the direction flag of its side; it is read into the field it is written from; no two fields share a key; every field with a "
        "default that the program consults has a key or is derived from keyed fields after they were read; every JSON enum table is a "
        "bijection between all enumerators and distinct names; element i of an array setting maps to element i.")


def run(R, tier):
    P = Program(all_tus())
    R.rule(RULE)
    R.assume("a settings class is one that has functions taking a JSON object; fields that other code assigns are run-time state, not options")
    uses, writes = field_uses(P)
    owners = defaultdict(list)
    for o, f in json_functions(P):
        fl = Flow(P, f)
        if fl.acc:
            owners[o].append((f, fl))
    R.count("json_functions", sum(len(v) for v in owners.values()))
    R.count("settings_classes", len(owners))
    R.need("settings_classes", 10)
    nk = 0
    for o, fls in sorted(owners.items()):
        nk += check_owner(R, P, o, fls, uses, writes)
    R.count("keys", nk)
    R.need("keys", 100)
    enums(R, P)
    arrays(R, P)


def field_uses(P):
    uses, writes = defaultdict(set), defaultdict(set)
    for f in P.fns.values():
        tg = set()
        if f.name == "operator=":
            continue
        for op, t, v, n, ctx in assigns(P, f, f.body):
            x = strip(t)
            while x is not None:
                if x["k"] == "Mem":
                    tg.add(id(x))
                    writes[x.get("q")].add(f.q)
                    x = strip(x["b"]) if x.get("b") else None
                elif x["k"] in ("Idx",):
                    x = strip(x["b"])
                elif x["k"] == "OpCall" and x["args"]:
                    x = strip(x["args"][0])
                elif x["k"] == "MCall" and x.get("b"):
                    x = strip(x["b"])
                else:
                    break
        for n in walk(f.body):
            if n["k"] == "Mem" and id(n) not in tg:
                uses[n.get("q")].add(f.q)
            elif n["k"] == "Other" and n.get("cls", "").startswith("CXXDependentScope"):
                uses["~" + n.get("n", "")].add(f.q)
            if n["k"] == "MCall" and n.get("b") and not (P.info(f, n) or {}).get("const", 1):
                b = strip(n["b"])
                if b is not None and b["k"] == "Mem":
                    writes[b.get("q")].add(f.q)
            if n["k"] in ("Call", "MCall"):
                for a in n["args"]:
                    a = strip(a)
                    if a is not None and a["k"] == "Un" and a["op"] == "&":
                        b = strip(a["e"])
                        if b is not None and b["k"] == "Mem":
                            writes[b.get("q")].add(f.q)
        for i in f.inits:
            if i.get("q") and i.get("written"):
                writes[i["q"]].add(f.q)
    return uses, writes


def polof(pol):
    """direction of an access: True/False when a flag decides it, constants folded; None if unguarded"""
    out = []
    for p, v in pol:
        if isinstance(p, tuple) and p[0] == "const":
            if p[1] != v:
                return "dead"
            continue
        out.append((p, v))
    return tuple(out)


def check_owner(R, P, o, fls, uses, writes):
    short = o.replace("DNDS::", "")
    rd, wr = defaultdict(list), defaultdict(list)
    cases = set()
    for f, fl in fls:
        for d, key, loc, cs, pol, fn, node, order in fl.acc:
            p = polof(pol)
            if p == "dead":
                continue
            (rd if d == "R" else wr)[key].append((loc, cs, p, fn, node, order, fl))
            cases |= {c for c in cs}
    if not wr or not rd:
        R.count("one_way_classes")
        return 0
    # direction flags
    for f, fl in fls:
        dirs = {"R": defaultdict(set), "W": defaultdict(set)}
        for d, key, loc, cs, pol, fn, node, order in fl.acc:
            p = polof(pol)
            if p == "dead":
                continue
            # an access that hands key and field to another object's own function goes both ways
            both = any(x[1] == key and x[0] != d and x[6] is node for x in fl.acc)
            if both:
                continue
            for fv, v in p:
                dirs[d][fv].add((v, key, P.where(fn, node)))
        for d in "RW":
            for fv, s in dirs[d].items():
                vals = [v for v, _, _ in s]
                maj = vals.count(True) >= vals.count(False)
                other = [v for v, _, _ in dirs["W" if d == "R" else "R"].get(fv, ())]
                if other and vals:
                    # the majority over both sides fixes which value means reading
                    score = (vals.count(True) - vals.count(False)) - (other.count(True) - other.count(False))
                    maj = score >= 0
                for v, key, w in s:
                    if v != maj:
                        R.viol("flag:%s:%s" % (short, key), w, "key \"%s\" of %s is %s under the wrong value of the direction flag" % (key, short, "read" if d == "R" else "written"))
    for f, fl in fls:
        for k1, k2, fn, n in fl.guards:
            R.count("presence_tests")
            for k in sorted(k2):
                if k != k1 and k in wr and k1 not in wr:
                    R.viol("guard:%s:%s" % (short, k), P.where(fn, n), "%s reads key \"%s\" only where \"%s\" is present, which it never writes" % (short, k, k1))
    # per-case key sets
    rk = {(k, c) for k, l in rd.items() for _, cs, _, _, _, _, _ in l for c in (cs or ("",))}
    wk = {(k, c) for k, l in wr.items() for _, cs, _, _, _, _, _ in l for c in (cs or ("",))}
    for k, c in sorted(rk - wk):
        if (k, "") in wk or any(kk == k for kk, cc in wk) and c == "":
            continue
        w = rd[k][0]
        w = next((x for x in rd[k] if c in (x[1] or ("",))), w)
        R.viol("unwritten:%s:%s:%s" % (short, k, c), P.where(w[3], w[4]), "%s reads key \"%s\"%s but does not write it: a written configuration loses the option" % (short, k, " for " + c if c else ""))
    for k, c in sorted(wk - rk):
        if k.startswith("__") or (k, "") in rk or any(kk == k for kk, cc in rk) and c == "":
            continue
        w = next((x for x in wr[k] if c in (x[1] or ("",))), wr[k][0])
        R.viol("unread:%s:%s:%s" % (short, k, c), P.where(w[3], w[4]), "%s writes key \"%s\"%s but does not read it: the option given by the user is ignored" % (short, k, " for " + c if c else ""))
    # same field on both sides
    owner_keys = defaultdict(set)
    for k in sorted(set(rd) & set(wr)):
        rl = {x[0] for x in rd[k] if x[0] is not None}
        wl = set()
        for x in wr[k]:
            wl |= set(x[0])
        R.count("keys_matched")
        if rl and wl:
            if not (rl & wl):
                x = wr[k][0]
                R.viol("field:%s:%s" % (short, k), P.where(x[3], x[4]), "key \"%s\" of %s is read into %s but written from %s" % (k, short, names(rl), names(wl)))
            elif len(rl) > 1 and not all(a in wl for a in rl):
                x = rd[k][0]
                R.viol("field2:%s:%s" % (short, k), P.where(x[3], x[4]), "key \"%s\" of %s is read into %s but written from %s" % (k, short, names(rl), names(wl)))
        for l in rl:
            owner_keys[l].add(k)
    for l, ks in sorted(owner_keys.items()):
        # several keys into one location within one case: the later one wins
        for c in sorted(cases) or [""]:
            kc = [k for k in ks if any(x[0] == l and (not x[1] or c in x[1]) for x in rd[k])]
            if len(kc) > 1:
                x = rd[kc[0]][0]
                R.viol("shared:%s:%s" % (short, ".".join(l)), P.where(x[3], x[4]), "keys %s of %s are all read into %s" % (", ".join(sorted(kc)), short, ".".join(l)))
                break
    # switch coverage on both sides
    sw = [(f, n, labs) for f, fl in fls for f, n, labs in getattr(fl, "switches", [])]
    if len(sw) >= 2:
        alls = set().union(*[s[2] for s in sw]) - {"default"}
        for f, n, labs in sw:
            for m in sorted(alls - labs):
                R.viol("case:%s:%s" % (short, m), P.where(f, n), "%s handles boundary/kind %s on one side of the round trip only" % (short, m))
            R.count("switches")
    # derived fields come after their inputs were read
    readtop = {}
    for k, l in rd.items():
        for loc, cs, p, fn, node, order, fl in l:
            if loc is None:
                continue
            readtop.setdefault((id(fl), loc[:1]), []).append((order, k, p))
    for f, fl in fls:
        for la, used, order, node, ctx, fn in fl.asg:
            if polof(ctx[1]) == "dead":
                continue
            for u in used:
                late = [k for (i, l), v in readtop.items() if i == id(fl) and l == u[:1] and la[:1] != l for (oo, k, p) in v if oo > order]
                early = [k for (i, l), v in readtop.items() if i == id(fl) and l == u[:1] for (oo, k, p) in v if oo < order]
                if late and not early:
                    R.viol("order:%s:%s" % (short, ".".join(la)), P.where(fn, node), "%s of %s is computed from %s before that option (key \"%s\") is read" % (".".join(la), short, ".".join(u), late[0]))
            R.count("derived_fields")
    # every consulted default has a key
    recs = [r for r in P.records.values() if r["q"] == o]
    if recs:
        r = next((x for x in recs if not x.get("dep")), recs[0])
        moved = {l[0] for l in owner_keys if l}
        derived = {la[0] for f, fl in fls for la, *_ in fl.asg}
        jf = {f.q for f, _ in fls} | {"DNDS::CFV::to_json", "DNDS::CFV::from_json"}
        for fd in r["fields"]:
            q = o + "::" + fd["n"]
            R.count("fields")
            if fd["n"] in moved or fd["n"] in derived:
                continue
            if not fd.get("hasinit"):
                continue
            ext_w = {w for w in writes.get(q, ()) if w not in jf}
            if ext_w:
                continue
            ext_u = {u for u in uses.get(q, ()) if u not in jf}
            if not ext_u:
                R.count("fields_without_use")
                continue
            R.viol("nokey:%s:%s" % (short, fd["n"]), "%s:%d" % (r["_file"].replace(REPO + "/", ""), fd["l"]), "option %s::%s is consulted (%s) but no JSON key sets it and nothing else assigns it" % (short, fd["n"], sorted(ext_u)[0]))
    return len(set(rd) | set(wr))


def names(ls):
    return "/".join(sorted(".".join(l) or "?" for l in ls))


def enums(R, P):
    """NLOHMANN-style tables {enumerator, name}: complete, injective both ways, named after the enumerator"""
    seen = {}
    for f in P.fns.values():
        if f.name not in ("to_json", "from_json"):
            continue
        for n in walk(f.body):
            if n["k"] != "Decl":
                continue
            for v in n["vars"]:
                rows = table(v.get("init"))
                if rows:
                    seen.setdefault((f.file, f.line), {})[f.name] = (f, n, rows)
    R.count("enum_tables", len(seen))
    R.need("enum_tables", 3)
    vals = {}
    for e in P.enums.values():
        vals[e["q"]] = e
    for (file, line), d in sorted(seen.items()):
        for nm, (f, n, rows) in sorted(d.items()):
            et = [f.tu.types[P.var(f, p)["t"]].replace("const ", "").strip(" &") for p in f.params]
            e = next((vals[t] for t in et if t in vals), None)
            if e is None:
                R.viol("enumtype:%s:%d" % (f.file, line), f.loc(), "enum table without a known enum type")
                continue
            en = e["q"].rsplit("::", 1)[-1]
            R.count("enum_rows", len(rows))
            byval = defaultdict(list)
            for a, b in e["c"]:
                byval[b].append(a)
            listed = defaultdict(list)
            strs = defaultdict(list)
            for v, name, s in rows:
                listed[v].append(s)
                strs[s].append(name)
                if s is not None and s not in byval.get(v, ()):
                    others = [a for a, b in e["c"]]
                    if s in others:
                        R.viol("enumname:%s:%s" % (en, s), f.loc(), "JSON name \"%s\" stands for another enumerator (%s) of %s" % (s, name, en))
            for s, ns in strs.items():
                if len(ns) > 1:
                    R.viol("enumdup:%s:%s" % (en, s), f.loc(), "JSON name %s of %s stands for %s" % (s, en, ", ".join(ns)))
            for v, ss in listed.items():
                if len(ss) > 1:
                    R.viol("enumdup2:%s:%s" % (en, v), f.loc(), "enumerator %s of %s has several JSON names %s: the later one cannot be written back" % (byval[v], en, ss))
            for v, ns in byval.items():
                if v not in listed:
                    R.viol("enummiss:%s:%s" % (en, ns[0]), f.loc(), "enumerator %s of %s has no JSON name: written as the first table entry, cannot be configured" % (ns[0], en))
        if len(d) == 2:
            a, b = d["to_json"][2], d["from_json"][2]
            if [(x[0], x[2]) for x in a] != [(x[0], x[2]) for x in b]:
                R.viol("enumside:%s:%d" % (file, line), d["to_json"][0].loc(), "enum tables for reading and writing differ")


def table(init):
    n = unwrap(init) if init else None
    if not n or n["k"] != "InitL" or not n.get("c"):
        return None
    rows = []
    for r in n["c"]:
        r = strip(r)
        c = None
        if r["k"] == "InitL" and len(r.get("c", [])) == 2:
            c = r["c"]
        elif r["k"] == "Con" and len(r["args"]) == 2:
            c = r["args"]
        if not c:
            return None
        a, b = strip(c[0]), strip(c[1])
        while b["k"] == "Con" and b["args"]:
            b = strip(b["args"][0])
        if a["k"] != "Ref" or "v" not in a:
            return None
        if b["k"] == "Str":
            rows.append((int(a["v"]), a["n"], b["v"]))
        elif b["k"] == "NullP":
            rows.append((int(a["v"]), a["n"], None))
        else:
            return None
    return rows


def arrays(R, P):
    """conversion loops between JSON arrays and vectors copy element i to element i over the whole range"""
    n0 = 0
    for f in P.fns.values():
        if f.outer or not re.search(r"src/DNDS/JsonUtil", f.file):
            continue
        for n in walk(f.body):
            if n["k"] != "For":
                continue
            for op, t, v, nd, ctx in assigns(P, f, n["body"]):
                ti, vi = index_of(P, f, t), index_of(P, f, v)
                if ti is None or vi is None:
                    continue
                n0 += 1
                if ti != vi:
                    R.viol("array:%s" % f.q, P.where(f, nd), "element %s of the array setting is taken from element %s" % (ti, vi))
                d = n.get("init")
                if d and d["k"] == "Decl" and d["vars"] and const(d["vars"][0].get("init")) not in (0, None):
                    R.viol("array0:%s" % f.q, P.where(f, n), "the conversion loop does not start at the first element")
                c = n.get("cond")
                if c and c["k"] == "Bin":
                    b = strip(c["b"])
                    if c["op"] not in ("<", "!=") or b["k"] == "Bin":
                        R.viol("arrayN:%s" % f.q, P.where(f, n), "the conversion loop does not cover the array: %s" % show(P, f, c))
    R.count("array_conversions", n0)


def index_of(P, f, n):
    n = strip(n)
    while n:
        if n["k"] == "OpCall" and n["op"] in ("[]", "()") and len(n["args"]) == 2:
            return show(P, f, n["args"][1])
        if n["k"] == "Idx":
            return show(P, f, n["i"])
        if n["k"] == "MCall":
            if n["args"] and (P.callee_q(f, n) or "").endswith("::at"):
                return show(P, f, n["args"][0])
            n = strip(n.get("b"))
            continue
        return None
