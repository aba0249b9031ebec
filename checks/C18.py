"""Activation and softmax losses: value and Jacobian."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from fw import *  # noqa

RULE = ("for every activation and softmax loss the canonical form of the returned value equals the documented function of the "
        "input and the Jacobian equals its symbolic derivative, multiplied by a given Jacobian when there is one; every exponent SafeSoftmax evaluates is at most 0 and one of them is 0 in every ordering of the inputs")
a = V("a")


def act(name, x):
    e = alg.exp(x)
    if name == "Sigmoid":
        return num(1 / (1 + 1 / e))
    if name == "Tanh":
        return num((e - 1 / e) / (e + 1 / e))
    if name == "ReLU":
        return ite(cmp_lt(0, x), num(x), num(0))
    if name == "LeakyReLU":
        return ite(cmp_lt(0, x), num(x), num(a * x))


def soft(x):
    es = [alg.exp(t) for t in x]
    s = sum(es, alg.const(0))
    return [num(e / s) for e in es]


def body(c):
    m = compile_client(c.work, "activations.cpp")
    x = arr("x", 3)
    J = arr("J", 6)
    s = V("s")

    def vals(k, r, f):
        for i in range(3):
            c.equal("%s: value %d" % (k, i), r.out(i), f[i], where=r.where())

    def chained(k, r, D, care):
        for j in range(2):
            for i in range(3):
                e = num(0)
                for t in range(3):
                    e = n_add(e, n_mul(D[i][t], J[3 * j + t]))
                c.equal("%s: Jacobian %d,%d" % (k, i, j), r.out(3 + 3 * j + i), e, care, where=r.where())

    def full(k, r, D, care):
        for j in range(3):
            for i in range(3):
                c.equal("%s: Jacobian %d,%d" % (k, i, j), r.out(3 + 3 * j + i), D[i][j], care, where=r.where())

    for L in ("Sigmoid", "Tanh", "ReLU", "LeakyReLU"):
        f = [act(L, t) for t in x]
        D = [[n_diff(f[i], x[j]) for j in range(3)] for i in range(3)]
        care = T
        if L in ("ReLU", "LeakyReLU"):
            for t in x:
                care = land(care, lnot(cmp_eq(t, 0)))
        X = Arr("x", 3)
        for suf in ("v", "dv"):
            vals("%s/%s" % (L, suf), analyse(c, m, "vp_%s_%s" % (L, suf), [X, a, OUT]), f)
        r = analyse(c, m, "vp_%s_b" % L, [X, a, OUT])
        vals(L + "/b", r, f)
        full(L + "/b", r, D, care)
        for suf in ("j", "p", "dj"):
            r = analyse(c, m, "vp_%s_%s" % (L, suf), [X, a, Arr("J", 6), OUT])
            vals("%s/%s" % (L, suf), r, f)
            chained("%s/%s" % (L, suf), r, D, care)
        fs = act(L, s)
        ds = n_diff(fs, s)
        cs = lnot(cmp_eq(s, 0)) if L in ("ReLU", "LeakyReLU") else T
        r = analyse(c, m, "vp_%s_sv" % L, [s, a])
        c.equal(L + "/sv: value", r.ret, fs, where=r.where())
        r = analyse(c, m, "vp_%s_sb" % L, [s, a, OUT])
        c.equal(L + "/sb: value", r.out(0), fs, where=r.where())
        c.equal(L + "/sb: derivative", r.out(1), ds, cs, where=r.where())
        r = analyse(c, m, "vp_%s_sj" % L, [s, a, Arr("J", 2), OUT])
        c.equal(L + "/sj: value", r.out(0), fs, where=r.where())
        for i in range(2):
            c.equal(L + "/sj: Jacobian %d" % i, r.out(1 + i), n_mul(ds, J[i]), cs, where=r.where())
    def bounded(k, r):
        """no exponential of a positive number (overflow), and one of 1 (the sum never underflows)"""
        exps = [x for x in r.it.maths if x[0] in ("exp", "expm1", "exp2")]
        c.oblige(k + ": exponentials found", len(exps) > 0, r.where(), "no exponential in SafeSoftmax")
        none = T
        for mm, args, guard, ins in exps:
            c.never(k + ": no exponential of a positive number", land(guard, mapn(lambda v: cmp_lt(0, v), args, "pos")), where=r.where(), what="exp(%s)" % args[0])
            none = land(none, mapn(lambda v: lnot(cmp_eq(v, 0)), args, "nonzero"))
        c.never(k + ": one exponent is 0", none, where=r.where(), what="no exponent is 0")

    for L in ("Softmax", "SafeSoftmax"):
        f = soft(x)
        D = [[n_diff(f[i], x[j]) for j in range(3)] for i in range(3)]
        r = analyse(c, m, "vp_%s_v" % L, [Arr("x", 3), OUT])
        vals(L + "/v", r, f)
        if L == "SafeSoftmax":
            bounded(L + "/v", r)
        r = analyse(c, m, "vp_%s_b" % L, [Arr("x", 3), OUT])
        vals(L + "/b", r, f)
        full(L + "/b", r, D, T)
        for suf in ("j", "p", "dj"):
            r = analyse(c, m, "vp_%s_%s" % (L, suf), [Arr("x", 3), Arr("J", 6), OUT])
            vals("%s/%s" % (L, suf), r, f)
            chained("%s/%s" % (L, suf), r, D, T)
            if L == "SafeSoftmax":
                bounded("%s/%s" % (L, suf), r)
        r = analyse(c, m, "vp_%s_sv" % L, [s])
        c.equal(L + "/sv: value", r.ret, num(1), where=r.where())
        r = analyse(c, m, "vp_%s_sb" % L, [s, OUT])
        c.equal(L + "/sb: value", r.out(0), num(1), where=r.where())
        r = analyse(c, m, "vp_%s_sj" % L, [s, Arr("J", 2), OUT])
        c.equal(L + "/sj: value", r.out(0), num(1), where=r.where())


main("C18", RULE, body, min_obl=200, assumptions=[
    "arithmetic over the reals (rounding and overflow of exp outside the property, except that SafeSoftmax exponentiates nothing positive)",
    "ReLU/LeakyReLU derivatives away from 0; softmax Jacobians for vectors",
    "Eigen and libm elementary functions are what their names say"])
