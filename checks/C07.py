"""The reported final cost only decreases and belongs to an accepted iteration."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from optim_oracle import *  # noqa

RULE = ("final cost, residual count, relative decrease and success flag after one iteration of the optimizer equal, as decision diagrams over every outcome of the "
        "build and every previous state, those of the definition")


def body(c):
    def one(I, K):
        for n in ("final", "count", "nres", "rerr", "ok"):
            c.equal("%s: %s" % (I.key, LABEL[n]), I.field(n), I.S.s[n], I.care, where=I.w)
        up = land(I.care, land(cmp_lt(I.d["final"], I.field("final")), cmp_lt(0, I.d["iters"])))
        c.never(I.key + ": the final cost does not increase after the first iteration", up, where=I.w, what="final cost increased")
    c.parallel(step_tasks(c, one, nans=(False,)))


if __name__ == "__main__":
    main("C07", RULE, body, min_obl=30, assumptions=["real arithmetic; thresholds at the size of the float epsilon are not distinguished from 0",
                                                     "the solver is reduced to its outcomes", "at most 2 (thorough: 3) attempts per iteration are unrolled"])
