"""Stop criteria fire exactly when enabled and met, and the reported reason is true."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from optim_oracle import *  # noqa

RULE = ("the stop reason after one iteration of the optimizer is, as a decision diagram over thresholds, previous state and every outcome of the build, the one the "
        "definition gives; callbacks are called exactly when no other criterion was met, with this iteration's cost, step and gradient")


def body(c):
    def one(I, K):
        c.equal(I.key + ": stop reason", I.field("stop"), I.S.s["stop"], I.care, where=I.w)
        for n in ("MinError", "MinRel", "MinDelta", "MinGrad", "MaxConsec", "MaxTotal"):
            if n in I.S.cases:
                c.oblige("%s: the case %s occurs" % (I.key, n), true_case(land(I.care, I.S.cases[n]), limit=10 ** 6) is not None, I.w, "criterion is never met")

    def call(I, K):
        one(I, K)
        dim = len(I.att[0]["dx"])
        both = all(I.stops)
        for k, nm in enumerate(("stop_callback", "stop_callback2")):
            if not I.stops[k]:
                continue
            # reached conditions: Step.cb holds, per attempt, the state before the first, second callback, ...
            per = 1 + sum(1 for x in I.stops if x)
            reached = [I.S.cb[i * per + (1 if both and k else 0)] for i in range(len(I.att))]
            cnt, args = num(0), [num(0)] * len(I.stops[k][0].args)
            for e in I.stops[k]:
                cnt = n_add(cnt, ite(e.guard, num(1), num(0)))
                args = [ite(e.guard, N(a), b) for a, b in zip(e.args, args)]
            want = num(0)
            for x in reached:
                want = n_add(want, ite(x[0], num(1), num(0)))
            c.equal("%s: %s is called exactly when reached" % (I.key, nm), cnt, want, I.care, where=I.w)
            exp = []
            for x in reached:
                if k == 0:
                    exp.append([x[1], x[2], x[3]])
                else:
                    z = num(0)
                    exp.append([x[1], x[4][0], x[4][1] if dim > 1 else z, x[5][0], x[5][1] if dim > 1 else z, num(dim), num(dim)])
            for j in range(len(args)):
                e = num(0)
                for x, y in zip(reached, exp):
                    e = ite(x[0], N(y[j]), e)
                c.equal("%s: argument %d of %s" % (I.key, j, nm), args[j], e, land(I.care, cmp_eq(want, 1)), where=I.w)
    tasks = step_tasks(c, one)
    for defs in (["-DVP_CB1"], ["-DVP_CB2"], ["-DVP_CB1", "-DVP_CB2"]):
        tasks += step_tasks(c, call, atts=(1,), defs=defs)
    c.parallel(tasks)


if __name__ == "__main__":
    main("C04", RULE, body, min_obl=60, assumptions=["real arithmetic; thresholds at the size of the float epsilon are not distinguished from 0",
                                                     "options, previous results and gradients are finite", "the solver is reduced to its outcomes",
                                                     "at most 2 (thorough: 3) attempts per iteration are unrolled"])
