"""Parameters move only by the solver's step and rejected steps are undone."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from optim_oracle import *  # noqa

RULE = ("the parameters handed to the solver in every iteration and those left by the run equal, as decision diagrams over every outcome of every build, the "
        "initial ones plus the displacements the definition applies and minus those it undoes")


def body(c):
    m = compile_client(c.work, "optim.cpp", opaque=OPAQUE, shards=8)
    K = names(c, m)

    def one(root, rounds, tries, kw):
        W = Whole(c, m, root, rounds, tries, K, **kw)
        for j, att in enumerate(W.rounds):
            for k, a in enumerate(att):
                g = land(a["guard"], W.U.going[j])
                for i in range(W.dim):
                    c.equal("%s: parameter %d in iteration %d, attempt %d" % (W.key, i, j, k), N(a["x"][i]), W.U.x[j][i], g, where=W.w)
        for i in range(W.dim):
            c.equal("%s: parameter %d after the run" % (W.key, i), W.r.f["x%d" % i], W.U.s["x"][i], W.care, where=W.w)
    tasks = []
    n = 5 if c.thorough else 4
    for root in ("vp_run_1", "vp_run_2", "vp_run_gd"):
        for a in range(0, n):
            tasks.append((root, a + 2, 1, dict(arg=a, mcf=0, mtf=0)))
        tasks.append((root, 3, 2, dict(arg=1, mcf=0, mtf=0)))
        tasks.append((root, 3, 1, dict(arg=1, mcf=0, mtf=0, nan=True)))
        tasks.append((root, 4, 1, dict(arg=2, mcf=2, mtf=0)))
        tasks.append((root, 4, 1, dict(arg=2, mcf=0, mtf=2)))
        tasks.append((root, 3, 1, dict(arg=1, mcf=3, mtf=0, min_error=V("min_error"), min_step=V("min_step"))))
    tasks.sort(key=lambda t: -t[1] * t[2])
    c.parallel([lambda t=t: one(*t) for t in tasks])


if __name__ == "__main__":
    main("C01", RULE, body, min_obl=60, assumptions=["real arithmetic", "the solver is reduced to its outcomes", "costs and steps are finite (C03 covers the others)",
                                                     "runs of up to 5 (thorough: 6) iterations are unrolled"])
