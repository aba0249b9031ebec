"""Every run of an optimizer starts from a system built for it."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
import optim_oracle
from solver_oracle import *  # noqa

RULE = ("two runs of one optimizer object on different problems: in every case left by the first run, the first user evaluation of the second run provides the "
        "gradient and Hessian, and the second solution's canonical forms do not mention the first problem's gradient, Hessian or start")


def body(c):
    m = compile_client(c.work, "reuse.cpp", shards=5, opaque=optim_oracle.OPAQUE)
    mr = compile_client(c.work, "reuse.cpp", tag="reset", shards=5, opaque=optim_oracle.OPAQUE, defs=["-DVP_RESET"])

    def stale(node):
        def rec(k):
            if k.name in ("u_g", "u_h") and str(k.args[0]) == "1":
                return True
            return k.name in ("x0", "x1") or any(rec(q) for a in k.args if isinstance(a, R) for q in kernels(a))

        def kernels(v):
            return [alg.KERNELS[i] for i in v.kernels()]
        for v in dd.leaves(node):
            if isinstance(v, R) and any(rec(k) for k in kernels(v)):
                return str(v)[:200]
        return None

    def st(it):
        it.undecided = 0
        it.cut = lambda fn, h, k: k >= (2 if it.nest == 1 else 1)

    def reset(n):
        r = analyse(c, mr, "vp_runs_" + n, [Arr("x", 2), Arr("y", 2), optim_oracle.boolvar("check_final_cost"), OUT], setup=st, summaries=optim_oracle.SUMS)
        d, care = r.it.decomps, r.guard
        k = len(d) // 3
        if 3 * k == len(d):  # the same system decomposes with the same outcome
            for a, b in zip(d[k:2 * k], d[2 * k:]):
                care = land(care, land(lnot(dd.lxor(a["ok"], b["ok"])), cmp_eq(a["sign"], b["sign"])))
        else:
            for a in d:
                care = land(care, land(a["ok"], cmp_eq(a["sign"], 0)))
        for i in range(2):
            c.equal("%s: after a reset, entry %d of the solution is that of a new optimizer" % (n, i), r.out(2 + i), r.out(4 + i), care, where=r.where())

    def reuse(n):
        r = analyse(c, m, "vp_runs_" + n, [Arr("x", 2), Arr("y", 2), optim_oracle.boolvar("check_final_cost"), OUT], setup=st, summaries=optim_oracle.SUMS)
        w = r.where()
        run, seen, calls = 0, F, [0, 0]
        for e in r.it.events:
            if e.name == "vpx_run":
                run = int(str(optim_oracle.val(e.args[0])))
            elif e.name == "vpx_user":
                p, grad = int(str(optim_oracle.val(e.args[0]))), e.args[1]
                calls[p - 1] += 1
                c.oblige("%s: user call %d of run %d evaluates its problem" % (n, calls[p - 1], run), p == run, loc_str(e.loc), "problem %d" % p)
                if run == 2:
                    c.never("%s: second run, evaluation %d comes first without building the system" % (n, calls[1]), land(land(e.guard, lnot(seen)), cmp_eq(grad, 0)), where=loc_str(e.loc))
                    seen = lor(seen, e.guard)
        c.oblige(n + ": both runs evaluate", min(calls) > 0, w, str(calls))
        c.never(n + ": the second run ends without an evaluation", land(r.guard, lnot(seen)), where=w)
        for i in (2, 3):
            t = stale(dd.restrict(r.out(i), r.guard))
            c.oblige("%s: second solution, entry %d owes nothing to the first problem" % (n, i - 2), t is None, w, "depends on %s" % t)
    c.parallel([lambda k=k: reuse(k) for k in ("gn", "lm", "gnx", "lmx", "gd")] + [lambda k=k: reset(k) for k in ("lm", "lmx")])


if __name__ == "__main__":
    main("C31", RULE, body, min_obl=30, assumptions=["real arithmetic", "the first run takes at most two iterations"])
