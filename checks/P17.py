"""P17: variational reconstruction."""
from vrcommon import *


def run(R, tier):
    R.rule("ConstructRecCoeff, FFaceFunctional, DoReconstructionIter, DoReconstructionIterDiff, DoReconstructionIterSOR with the boundary right-hand sides, and DoReconstruction2ndGrad are interpreted over the "
           "extracted syntax tree on a formal mesh (two owned cells, a ghost; interior, boundary, periodic main and donor faces); basis derivatives, face weights, states, boundary functions and inverses are "
           "formal; results are compared as rational functions with the definition of the functional and of its stationarity condition")
    R.assume("guards of 1e-200 (verySmallReal) are taken as zero; the numerical inverse and the least-squares solver are uninterpreted")
    P = eigen_types(Program([t for t in CFV_TUS if "Limiter" not in t]))
    jobs = []
    fsn = "functionalSettings."
    for dim in (2, 3):
        for opt in (dict(), dict(opts={"SORInstead": 1})):
            for mode in ("own", "new", "inc", "inc zero"):
                jobs.append((iteration, (P, dim, opt, mode), "%d %s %s" % (dim, opt, mode)))
        for mode in ("diff", "sor", "rsor"):
            jobs.append((iteration, (P, dim, {}, mode), "%d %s" % (dim, mode)))
            jobs.append((iteration, (P, dim, dict(same=False), mode), "%d %s, other order" % (dim, mode)))
        jobs.append((iteration, (P, dim, dict(same=False), "own"), "%d own, other order" % dim))
        g = {fsn + "greenGauss1Weight": F(1, 3), fsn + "greenGauss1Bias": F(2, 7)}
        for same in (True, False):
            jobs.append((iteration, (P, dim, dict(same=same, opts=g), "own"), "%d own, Green-Gauss %s" % (dim, same)))
            jobs.append((iteration, (P, dim, dict(same=same, opts=g), "diff"), "%d diff, Green-Gauss %s" % (dim, same)))
            jobs.append((coeff, (P, dim, dict(same=same)), "%dD coefficients %s" % (dim, same)))
            for o in (g, dict(g, **{fsn + "greenGauss1Penalty": F(3, 5)})):
                jobs.append((coeff, (P, dim, dict(same=same, opts=o, nquad=4 - len(o))), "%dD coefficients with Green-Gauss %s" % (dim, same)))
        for method, scheme in ((1, 0), (1, 1), (11, 0)):
            jobs.append((gradient, (P, dim, method, scheme), "%dD gradient %d %d" % (dim, method, scheme)))
        for st in ("MeanAACBB", "BaryDiff"):
            for nd in {2: (1, 3, 6, 10), 3: (1, 4, 10, 20)}[dim]:
                jobs.append((functional, (P, dim, {fsn + "scaleType": enum(P, "ScaleType", st), fsn + "scaleMultiplier": F(3, 2)}, nd), "%dD functional %s %d" % (dim, st, nd)))
    run_jobs(R, jobs, order=lambda i: (jobs[i][0] is not coeff, jobs[i][1][1] != 3))
    R.need("iterations", 1)
    R.need("coefficient_sets", 1)
    R.need("functionals", 1)
    R.need("gradients", 1)
