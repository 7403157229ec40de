"""Common reporting: evidence, violations, known findings, exit codes."""
import json, os, re, time
from prog import VERIF, REPO, AnalysisError


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.viols = []           # (key, where, text, trace)
        self.known = []
        kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
        self.listed = {k["key"]: k for k in kf["known"] if k["property"] == prop}

    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        self.assumptions.append(text)

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, text, limit=12):
        if len(self.samples) < limit:
            self.samples.append(text)

    def need(self, name, minimum=1):
        """the rule has to have something to inspect"""
        if self.cov.get(name, 0) < minimum and not self.viols and not self.cov.get("undecided"):
            raise AnalysisError("%s: %d %s found, the rule has nothing to judge" % (self.prop, self.cov.get(name, 0), name))

    def viol(self, key, where, text, trace=()):
        if any(v[0] == key for v in self.viols) or any(k[0] == key for k in self.known):
            return
        if key in self.listed:
            self.known.append((key, where, text))
        else:
            self.viols.append((key, where, text, list(trace)))

    def undecided(self, label, ex, counter="undecided", limit=30):
        """an obligation the analysis could not decide; a definite error of the code on that path is a violation"""
        if hasattr(ex, "where"):
            self.viol("broken|" + label, ex.where, "%s: %s" % (label, ex.text))
            return
        if "TOP(uninitialised)" in str(ex) or "TOP(division by zero)" in str(ex):
            self.viol("broken|" + label, "", "%s: %s" % (label, str(ex).replace("TOP(uninitialised)", "an uninitialised value")
                                                        .replace("TOP(division by zero)", "a division by zero")))
            return
        self.count(counter)
        self.sample("undecided: %s: %s" % (label, ex), limit=limit)

    def finish(self):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        cov = {"explanation": " ".join(self.rules), "samples": self.samples}
        cov.update(self.cov)
        out = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
               "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
               "violations": len(self.viols)}
        with open(os.path.join(ev, self.prop + ".json"), "w") as f:
            json.dump(out, f, indent=1)
        for k in sorted(self.cov):
            print("analysed: %s = %s" % (k, self.cov[k]))
        for key, where, text in self.known:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, where, text))
        if self.viols:
            rp = os.path.join(ev, "%s.violations.txt" % self.prop)
            with open(rp, "w") as f:
                for key, where, text, trace in self.viols:
                    f.write("%s\n  %s\n  key: %s\n" % (where, text, key))
                    for t in trace:
                        f.write("    %s\n" % t)
            for key, where, text, trace in self.viols:
                print("%s: %s" % (where, text))
                for t in trace[:6]:
                    print("    " + t)
                print("    key: " + key)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0


class Recorder:
    """stands for a Report in a worker process; its calls are replayed in the parent"""

    def __init__(self):
        self.log = []

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)

        def rec(*a, **k):
            self.log.append((nm, a, k))
        return rec


_JOBS = None


def _one(i):
    from absint import SOFT
    f, a, label = _JOBS[i]
    r = Recorder()
    try:
        f(r, *a)
    except SOFT as ex:
        if hasattr(ex, "where"):
            r.viol("broken|" + label, ex.where, "%s: %s" % (label, ex.text))
        else:
            r.count("undecided")
            r.sample("undecided: %s: %s" % (label, ex), limit=60)
    return r.log


def run_jobs(R, jobs, order=None):
    """jobs: (function, arguments, label); run in forked workers, reports replayed in job order"""
    import multiprocessing as mp
    import os
    global _JOBS
    _JOBS = jobs
    n = min(len(jobs), os.cpu_count() or 1, 8)
    if n <= 1:
        logs = [_one(i) for i in range(len(jobs))]
    else:
        idx = sorted(range(len(jobs)), key=order or (lambda i: i))
        with mp.get_context("fork").Pool(n) as pool:
            res = pool.map(_one, idx, chunksize=1)
        logs = [None] * len(jobs)
        for i, l in zip(idx, res):
            logs[i] = l
    for l in logs:
        for nm, a, k in l:
            getattr(R, nm)(*a, **k)
