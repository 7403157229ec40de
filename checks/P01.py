"""P01: every rank takes part in every collective / neighbour exchange."""
from prog import *
from spmd import Spmd, DIV

EXEMPT = {
    # every rank pulls the complete set of query points, so the length is the global count
    ("DNDS::Euler::EulerEvaluator::GetWallDist", "count"),
}


def run(R, tier):
    P = Program(all_tus())
    S = Spmd(P)
    R.rule("Rank-variance dataflow over every function instance (values tainted by rank, local array sizes/contents, clocks; "
           "cleaned by Allreduce/Bcast/Allgather): no call that reaches a collective, a neighbourhood exchange or a collective "
           "file operation is control dependent on a rank-varying value, and counts/roots/operations of collectives are rank-uniform.")
    R.assume("fields listed in spmd.UNIFORM_FIELDS/UNIFORM_PREFIX hold the same value on all ranks; configuration and file metadata are the same on all ranks")
    R.count("function_instances", len([f for f in P.fns.values() if not f.dep]))
    R.count("communicating_functions", len(S.collfns))
    R.count("communication_call_sites", len(S.sites))
    R.count("uniform_argument_positions", len(S.uargs))
    R.need("communication_call_sites", 300)
    for (w, q) in sorted(S.sites)[:6]:
        R.sample("%s %s" % (w, q))
    for (w, what), (fn, n, guards) in sorted(S.viol.items()):
        if (fn.q, "count") in EXEMPT and " count of " in what:
            continue
        tr = []
        for d, c, f in guards:
            if d & DIV and c:
                tr.append("rank-dependent decision at %s" % P.where(f, c))
        callee = re.sub(r" at \S+", "", what)
        R.viol("%s|%s" % (fn.q, callee), w, "%s: %s" % (fn.q, what if "argument" in what or "passed" in what else
               what + " is executed by some ranks only"), tr)
