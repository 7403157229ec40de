"""P16: metrics of cells and faces, polynomial basis and its caches."""
from vrcommon import *


def run(R, tier):
    R.rule("ConstructMetrics, ConstructBaseAndWeight, FDiffBaseValue and GetIntPointDiffBaseValue are interpreted over the extracted syntax tree on a formal mesh (owned and ghost cells; interior, "
           "boundary, periodic main and donor faces) with formal node coordinates, quadrature weights, mapping points and Jacobians (a rotation times an upper triangular matrix of formal entries); the "
           "polynomials are uninterpreted functions of scaled coordinates and scales; every stored and every returned value is compared as a rational function with its definition")
    R.assume("guards of 1e-200 (verySmallReal) are taken as zero; the eigen-decomposition of the inertia tensor is uninterpreted; polynomials, shape functions and their derivatives are P07 and P09, quadrature P08")
    P = eigen_types(Program([t for t in CFV_TUS if "Limiter" not in t]))
    jobs = []
    defi = {"ignoreMeshGeometryDeficiency": True}
    fsn = "functionalSettings."
    for dim in (2, 3):
        jobs.append((metrics, (P, dim, {}), "%dD metrics" % dim))
        jobs.append((metrics, (P, dim, dict(opts=defi)), "%dD metrics, deficient meshes admitted" % dim))
        st = {fsn + "scaleType": enum(P, "ScaleType", "BaryDiff")}
        for c in ({"cacheDiffBase": False}, {"cacheDiffBase": True, "cacheDiffBaseSize": 255}, {"cacheDiffBase": True, "cacheDiffBaseSize": dim + 1},
                  {"cacheDiffBase": True, "cacheDiffBaseSize": 1}):
            for b in ({}, {"baseSettings.localOrientation": True, "baseSettings.anisotropicLengths": True}, {"same": False}):
                c2 = dict(c)
                c2.update(b)
                c2.update(st)
                jobs.append((basis, (P, dim, c2), "%dD basis %s" % (dim, c2)))
        if tier != "quick":
            jobs.append((basis, (P, dim, dict(st, cacheDiffBase=True, cacheDiffBaseSize=255), 2), "%dD quadratic basis" % dim))
            jobs.append((basis, (P, dim, dict(st, cacheDiffBase=False), 2), "%dD quadratic basis" % dim))
    jobs.append((metrics, (P, 3, dict(opts=defi), True), "3D metrics of inverted cells"))
    run_jobs(R, jobs, order=lambda i: "3D" not in jobs[i][2])
    R.need("metric_sets", 1)
    R.need("basis_sets", 1)
    R.need("accessors", 1)
