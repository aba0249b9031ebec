"""A NaN or infinite cost or step is never accepted."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from optim_oracle import *  # noqa

RULE = ("one iteration of the optimizer is evaluated with class tracking (finite, infinite, NaN) for every outcome of the build; in every case in which the cost "
        "or the squared step of the attempt that ends the iteration is not finite, the returned pair, stop reason, final cost and histories are the required ones")


def body(c):
    def one(I, K):
        S, r = I.S, I.r
        bad = S.cases["NaN"]
        c.oblige(I.key + ": the case occurs", true_case(land(I.care, bad), limit=10 ** 6) is not None, I.w, "no case with a non-finite cost or step")
        c.equal(I.key + ": stop reason is the NaN/Inf failure", I.field("stop"), num(K["NaN"]), land(I.care, bad), where=I.w)
        c.equal(I.key + ": not successful", I.field("ok"), num(0), land(I.care, bad), where=I.w)
        c.equal(I.key + ": no displacement", I.field("has"), num(0), land(I.care, bad), where=I.w)
        for n in ("final", "count", "rerr", "nres"):
            c.equal("%s: %s kept" % (I.key, LABEL[n]), I.field(n), start(I.d)[n], land(I.care, bad), where=I.w)
        for k, n in enumerate(("error", "step", "success")):
            c.equal("%s: nothing appended to the %s history" % (I.key, n), I.hist(k)[0], num(0), land(I.care, bad), where=I.w)
        # accepted iterations
        acc = land(I.care, cmp_eq(I.field("ok"), 1))
        c.never(I.key + ": an accepted iteration has a finite final cost", land(acc, nonfinite(I.field("final"))), where=I.w, what="accepted with a non-finite cost")
        d2 = num(0)
        for i in range(len(I.att[0]["dx"])):
            d2 = n_add(d2, n_mul(I.field("dx%d" % i), I.field("dx%d" % i)))
        c.never(I.key + ": a returned displacement has a finite squared norm", land(land(I.care, cmp_eq(I.field("has"), 1)), nonfinite(d2)), where=I.w,
                what="non-finite displacement returned")
        c.never(I.key + ": the NaN/Inf reason is not reported otherwise", land(land(I.care, lnot(bad)), cmp_eq(I.field("stop"), K["NaN"])), where=I.w,
                what="NaN/Inf failure reported")
    c.parallel(step_tasks(c, one, nans=(True,)))


if __name__ == "__main__":
    main("C03", RULE, body, min_obl=50, assumptions=["options, previous results and gradients are finite", "the solver is reduced to its outcomes",
                                                     "at most 2 (thorough: 3) attempts per iteration are unrolled"])
