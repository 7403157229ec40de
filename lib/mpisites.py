"""Inventory of MPI data-movement call sites with the roles of their arguments."""
from prog import *
from expr import *

# role lists: b=(buffer, count, type) triples by argument index; op/root/comm
SIG = {
    "Bcast": {"b": [(0, 1, 2)], "root": 3}, "Ibcast": {"b": [(0, 1, 2)], "root": 3},
    "Allreduce": {"b": [(0, 2, 3), (1, 2, 3)], "op": 4, "red": 1}, "Iallreduce": {"b": [(0, 2, 3), (1, 2, 3)], "op": 4, "red": 1},
    "Reduce": {"b": [(0, 2, 3), (1, 2, 3)], "op": 4, "root": 5, "red": 1},
    "Scan": {"b": [(0, 2, 3), (1, 2, 3)], "op": 4, "red": 1}, "Exscan": {"b": [(0, 2, 3), (1, 2, 3)], "op": 4, "red": 1},
    "Allgather": {"b": [(0, 1, 2), (3, 4, 5)], "gather": 1}, "Iallgather": {"b": [(0, 1, 2), (3, 4, 5)], "gather": 1},
    "Gather": {"b": [(0, 1, 2), (3, 4, 5)], "gather": 1},
    "Alltoall": {"b": [(0, 1, 2), (3, 4, 5)], "a2a": 1}, "Ialltoall": {"b": [(0, 1, 2), (3, 4, 5)], "a2a": 1},
    "Alltoallv": {"b": [(0, None, 3), (4, None, 7)], "v": [(1, 2), (5, 6)]}, "Ialltoallv": {"b": [(0, None, 3), (4, None, 7)], "v": [(1, 2), (5, 6)]},
    "Send": {"b": [(0, 1, 2)], "peer": 3, "tag": 4, "dir": "send"}, "Isend": {"b": [(0, 1, 2)], "peer": 3, "tag": 4, "dir": "send"},
    "Issend": {"b": [(0, 1, 2)], "peer": 3, "tag": 4, "dir": "send"}, "Ssend": {"b": [(0, 1, 2)], "peer": 3, "tag": 4, "dir": "send"},
    "Send_init": {"b": [(0, 1, 2)], "peer": 3, "tag": 4, "dir": "send"}, "Bsend_init": {"b": [(0, 1, 2)], "peer": 3, "tag": 4, "dir": "send"},
    "Ssend_init": {"b": [(0, 1, 2)], "peer": 3, "tag": 4, "dir": "send"},
    "Recv": {"b": [(0, 1, 2)], "peer": 3, "tag": 4, "dir": "recv"}, "Irecv": {"b": [(0, 1, 2)], "peer": 3, "tag": 4, "dir": "recv"},
    "Recv_init": {"b": [(0, 1, 2)], "peer": 3, "tag": 4, "dir": "recv"},
}
ONE = {"DNDS::MPI::AllreduceOneReal": "double", "DNDS::MPI::AllreduceOneIndex": "long"}


def short(q):
    if q.startswith("DNDS::MPI::"):
        return q[len("DNDS::MPI::"):]
    if q.startswith("MPI_"):
        return q[4:]
    return None


class Site:
    pass


def sites(P):
    """every call to a data-moving MPI routine or to the repository's wrapper of one"""
    out, seen = [], set()
    for fn in P.fns.values():
        if fn.dep:
            continue
        for n in walk(fn.body):
            if n["k"] not in ("Call", "MCall"):
                continue
            q = P.callee_q(fn, n)
            if not q:
                continue
            s = short(q)
            if q in ONE:
                x = Site()
                x.kind, x.sig = "one", {"op": 1}
            elif s in SIG and len(n["args"]) >= 5:
                x = Site()
                x.kind, x.sig = s, SIG[s]
            else:
                continue
            x.fn, x.n, x.q, x.args = fn, n, q, n["args"]
            x.where = P.where(fn, n)
            out.append(x)
    return out


def dtype_name(P, fn, n):
    """name of the datatype expression: ompi builtin, named global, or None"""
    n = strip(n)
    while n and n["k"] in ("Un", "Cast", "ICast") and n.get("op", "&") in ("&", "*"):
        n = strip(n["e"])
    if n and n["k"] == "Ref":
        v = fn.tu.vars[n["id"]]
        if v["k"] == "global":
            return n["n"]
        return None
    return None


def op_name(P, fn, n):
    n = strip(n)
    while n and n["k"] in ("Un", "Cast", "ICast"):
        n = strip(n["e"])
    if n and n["k"] == "Ref":
        m = re.match(r"ompi_mpi_op_(\w+)$", n["n"])
        if m:
            return m.group(1)
    return None


def elem_type(P, fn, n):
    """pointee type of a buffer expression"""
    m = n
    while m and m["k"] in ("ICast", "Cast"):
        t = P.type(fn, m)
        m = m["e"]
    if m is None:
        return ""
    if m["k"] == "Un" and m["op"] == "&":
        return clean(P.type(fn, m["e"]))
    if m["k"] in ("Int", "NullP"):
        return ""
    t = P.type(fn, m)
    t = t.strip()
    if t.endswith("*") or t.endswith("*const"):
        return clean(t[:t.rindex("*")])
    mm = re.match(r"(.*)\[(\d*)\]$", t)
    if mm:
        return clean(mm.group(1))
    return ""


def clean(t):
    return re.sub(r"\b(const|volatile)\b", "", t).replace("&", "").strip()
