"""Iteration history and counters describe what happened."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from optim_oracle import *  # noqa

RULE = ("number and values of the entries appended to each history, and both failure counters, after one iteration of the optimizer equal those of the definition for "
        "every outcome of the build, with and without non-finite values")


def body(c):
    def one(I, K):
        for k, n in enumerate(("error", "squared-step", "success")):
            (cnt, v), (wc, wv) = I.hist(k), I.want_hist(k)
            c.equal("%s: number of entries appended to the %s history" % (I.key, n), cnt, wc, I.care, where=I.w)
            c.equal("%s: entry appended to the %s history" % (I.key, n), v, wv, land(I.care, cmp_eq(wc, 1)), where=I.w)
        c.equal(I.key + ": entries appended in total", total(I), n_mul(num(3), I.want_hist(0)[0]), I.care, where=I.w)
        for n in ("fails", "consec"):
            c.equal("%s: %s" % (I.key, LABEL[n]), I.field(n), I.S.s[n], I.care, where=I.w)
        c.equal(I.key + ": an iteration leaves the iteration counter to the loop", I.field("iters"), N(I.d["iters"]), I.care, where=I.w)

    def total(I):
        n = num(0)
        for e in events(I.r, "vpx_hist"):
            n = n_add(n, ite(e.guard, num(1), num(0)))
        return n
    c.parallel(step_tasks(c, one, nans=(False, True)))


if __name__ == "__main__":
    main("C06", RULE, body, min_obl=80, assumptions=["options, previous results and gradients are finite", "the solver is reduced to its outcomes",
                                                     "at most 2 (thorough: 3) attempts per iteration are unrolled"])
