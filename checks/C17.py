"""Norms and Mahalanobis losses: value and Jacobian."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from fw import *  # noqa
from norms_oracle import *  # noqa

RULE = ("for every norm and Mahalanobis loss, every argument kind and every kind of derivative request, the canonical form of "
        "the returned value equals the documented norm and the Jacobian equals its symbolic derivative (chained)")


def body(c):
    m = compile_client(c.work, "norms.cpp")
    x = arr("x", 3)
    Jm = arr("J", 6)
    s = V("s")
    for L in ("SquaredL2", "L2", "L1", "Linf"):
        val = o_norm(L, x)
        care = regular(L, x)
        g = [n_diff(val, xi) for xi in x]

        def chain(k, r, n, first, grad, care):
            for i in range(n):
                c.equal("%s: Jacobian %d" % (k, i), r.out(first + i), grad[i], care, where=r.where())
        for suf in "vn":
            r = analyse(c, m, "vp_%s_%s" % (L, suf), [Arr("x", 3)])
            c.equal("%s/%s: value" % (L, suf), r.ret, val, where=r.where())
        r = analyse(c, m, "vp_%s_b" % L, [Arr("x", 3), OUT])
        c.equal("%s/b: value" % L, r.out(0), val, where=r.where())
        chain("%s/b" % L, r, 3, 1, g, care)
        gj = []
        for j in range(2):
            t = num(0)
            for i in range(3):
                t = n_add(t, n_mul(g[i], Jm[3 * j + i]))
            gj.append(t)
        for suf in "jp":
            r = analyse(c, m, "vp_%s_%s" % (L, suf), [Arr("x", 3), Arr("J", 6), OUT])
            c.equal("%s/%s: value" % (L, suf), r.out(0), val, where=r.where())
            chain("%s/%s" % (L, suf), r, 2, 1, gj, care)
        # scalars
        val = o_norm(L, [s])
        care = regular(L, [s])
        g1 = n_diff(val, s)
        for suf in ("sv", "sf"):
            r = analyse(c, m, "vp_%s_%s" % (L, suf), [s])
            c.equal("%s/%s: value" % (L, suf), r.ret, val, where=r.where())
        r = analyse(c, m, "vp_%s_sb" % L, [s, OUT])
        c.equal("%s/sb: value" % L, r.out(0), val, where=r.where())
        c.equal("%s/sb: derivative" % L, r.out(1), g1, care, where=r.where())
        r = analyse(c, m, "vp_%s_sj" % L, [s, Arr("J", 2), OUT])
        c.equal("%s/sj: value" % L, r.out(0), val, where=r.where())
        for i in range(2):
            c.equal("%s/sj: Jacobian %d" % (L, i), r.out(1 + i), n_mul(g1, Jm[i]), care, where=r.where())
    r = analyse(c, m, "vp_SquaredL2_h", [Arr("x", 3), OUT])
    c.equal("SquaredL2/h: value", r.out(0), num(sumsq(x)), where=r.where())
    for i in range(3):
        c.equal("SquaredL2/h: half Jacobian %d" % i, r.out(1 + i), num(x[i]), where=r.where())
    r = analyse(c, m, "vp_SquaredL2_sh", [s, OUT])
    c.equal("SquaredL2/sh: value", r.out(0), num(s * s), where=r.where())
    c.equal("SquaredL2/sh: half derivative", r.out(1), num(s), where=r.where())

    # ---- Mahalanobis, scalar with variance v
    v, J = V("v", "+"), V("j")
    q = s * s / v
    r = analyse(c, m, "vp_MahaSq_sv", [s, v])
    c.equal("MahaSquaredNorm/sv: value", r.ret, num(q), where=r.where())
    for suf, f, args in (("sb", 2, []), ("sj", 2, [J]), ("sh", 1, [])):
        r = analyse(c, m, "vp_MahaSq_" + suf, [s, v] + args + [OUT])
        c.equal("MahaSquaredNorm/%s: value" % suf, r.out(0), num(q), where=r.where())
        e = f * s / v * (J if args else 1)
        c.equal("MahaSquaredNorm/%s: derivative" % suf, r.out(1), num(e), where=r.where())
    nz = lnot(cmp_eq(s, 0))
    n = n_mul(n_abs(s), alg.const(1) / alg.sqrt(v))
    r = analyse(c, m, "vp_Maha_sv", [s, v])
    eq_abs(c, "MahaNorm/sv: value", r.ret, s, v, r)
    r = analyse(c, m, "vp_Maha_sb", [s, v, OUT])
    eq_abs(c, "MahaNorm/sb: value", r.out(0), s, v, r)
    # derivative d with d * n = s / v
    c.equal("MahaNorm/sb: derivative", n_mul(r.out(1), r.out(0)), num(s / v), nz, where=r.where())

    # ---- vectors with variances
    vv = arr("v", 3, "+")
    q = sum((a * a / b for a, b in zip(x, vv)), alg.const(0))
    qn = alg.sqrt(q)
    nz = lnot(cmp_eq(q, 0))
    gq = [alg.diff(q, a) for a in x]
    gn = [alg.diff(qn, a) for a in x]
    A3 = [Arr("x", 3), Arr("v", 3, sign="+")]
    vec(c, m, "MahaSq", "v", A3, q, gq, Jm, 3, 2, T)
    vec(c, m, "Maha", "v", A3, qn, gn, Jm, 3, 2, nz)
    vec(c, m, "MahaSq", "dv", A3, q, gq, Jm, 3, 2, T)
    vec(c, m, "Maha", "dv", A3, qn, gn, Jm, 3, 2, nz)
    r = analyse(c, m, "vp_MahaSq_vh", A3 + [OUT])
    c.equal("MahaSq/vh: value", r.out(0), num(q), where=r.where())
    for i in range(3):
        c.equal("MahaSq/vh: half Jacobian %d" % i, r.out(1 + i), num(gq[i] / 2), where=r.where())

    # ---- vectors with covariance (2x2, positive definite; lower triangle must not matter)
    a, b, d = V("C0", "+"), V("C2"), V("C3", "+")
    dd.assume_sign(a * d - b * b, (">0",))
    x2 = x[:2]
    q = maha2(x2, ((a, b), (b, d)))
    qn = alg.sqrt(q)
    gq = [alg.diff(q, t) for t in x2]
    gn = [alg.diff(qn, t) for t in x2]
    nz = cmp_lt(0, q)
    cov = Arr("C", 4, vals=[a, V("C1"), b, d])
    A2 = [Arr("x", 2), cov]
    vec(c, m, "MahaSq", "c", A2, q, gq, Jm[:4], 2, 2, T)
    vec(c, m, "Maha", "c", A2, qn, gn, Jm[:4], 2, 2, nz)
    vec(c, m, "MahaSq", "dc", A2, q, gq, Jm[:4], 2, 2, T)
    vec(c, m, "Maha", "dc", A2, qn, gn, Jm[:4], 2, 2, nz)

    # ---- whitening: |w|^2 = squared Mahalanobis norm, Jacobian = d w / d x
    sd = V("sd", "+")
    x3 = Arr("x", 3)
    white(c, m, "White", "i", [x3, sd], sumsq(x) / (sd * sd), x, Jm, iso=True)
    sv = arr("v", 3, "+")
    white(c, m, "White", "s", [x3, Arr("v", 3, sign="+")], sum((p * p / (t * t) for p, t in zip(x, sv)), alg.const(0)), x, Jm)
    white(c, m, "White", "c", [Arr("x", 2), cov], q, x2, Jm[:4])
    u = arr("U", 4)
    w0, w1 = u[0] * x2[0] + u[2] * x2[1], u[3] * x2[1]
    up = Arr("U", 4, vals=[u[0], 0, u[2], u[3]])
    white(c, m, "InfoU", "", [Arr("x", 2), up], w0 * w0 + w1 * w1, x2, Jm[:4])
    # garbage below the diagonal of U must not matter for the residuals and the chained Jacobian
    for suf in "vj":
        args = [Arr("x", 2), Arr("U", 4)] + ([Arr("J", 4)] if suf == "j" else []) + [OUT]
        r = analyse(c, m, "vp_InfoU_" + suf, args)
        low = kernel_of(u[1])
        n = 2 if suf == "v" else 6
        for i in range(n):
            dep = any(isinstance(z, R) and low.id in z.kernels() for z in dd.leaves(r.out(i)))
            c.oblige("InfoU/%s: output %d independent of the lower triangle" % (suf, i), not dep, r.where(), "depends on U(1,0): %s" % r.out(i))


def eq_abs(c, key, got, s, v, r):
    """got = |s|/sqrt(v): compare squares and signs"""
    c.equal(key + " (square)", n_mul(got, got), num(s * s / v), where=r.where())
    c.never(key + " (sign)", mapn(lambda x: dd.sgn_test(x, {"<"}) if isinstance(x, R) else True, [got], "isneg"), r.where(), "negative norm")


def vec(c, m, F, k, A, val, grad, J, n, cols, care):
    r = analyse(c, m, "vp_%s_%sv" % (F, k), A)
    c.equal("%s/%sv: value" % (F, k), r.ret, num(val), r.guard, where=r.where())
    good = T
    for d in r.it.decomps:
        good = land(good, d["ok"])
        if "sign" in d:
            good = land(good, cmp_eq(d["sign"], 0))
    c.never("%s/%sv: returns" % (F, k), land(good, lnot(r.guard)), r.where(), "does not return")
    r = analyse(c, m, "vp_%s_%sb" % (F, k), A + [OUT])
    c.equal("%s/%sb: value" % (F, k), r.out(0), num(val), r.guard, where=r.where())
    for i in range(n):
        c.equal("%s/%sb: Jacobian %d" % (F, k, i), r.out(1 + i), num(grad[i]), land(care, r.guard), where=r.where())
    r = analyse(c, m, "vp_%s_%sj" % (F, k), A + [Arr("J", len(J)), OUT])
    c.equal("%s/%sj: value" % (F, k), r.out(0), num(val), r.guard, where=r.where())
    for j in range(cols):
        g = sum((grad[i] * J[n * j + i] for i in range(n)), alg.const(0))
        c.equal("%s/%sj: Jacobian %d" % (F, k, j), r.out(1 + j), num(g), land(care, r.guard), where=r.where())


def white(c, m, F, k, A, sq, x, J, iso=False):
    n = len(x)
    r = analyse(c, m, "vp_%s_%sv" % (F, k), A + [OUT])
    w = r.outs(n)
    tot = num(0)
    for t in w:
        tot = n_add(tot, n_mul(t, t))
    c.equal("%s/%sv: |w|^2" % (F, k), tot, num(sq), where=r.where())
    r = analyse(c, m, "vp_%s_%sb" % (F, k), A + [OUT])
    for i in range(n):
        c.equal("%s/%sb: w%d" % (F, k, i), r.out(i), w[i], where=r.where())
    W = [[n_diff(w[i], x[j]) for j in range(n)] for i in range(n)]
    if iso:
        c.equal("%s/%sb: scale" % (F, k), r.out(n), W[0][0], where=r.where())
    else:
        for j in range(n):
            for i in range(n):
                c.equal("%s/%sb: Jacobian %d,%d" % (F, k, i, j), r.out(n + j * n + i), W[i][j], where=r.where())
    r = analyse(c, m, "vp_%s_%sj" % (F, k), A + [Arr("J", len(J)), OUT])
    cols = len(J) // n
    for i in range(n):
        c.equal("%s/%sj: w%d" % (F, k, i), r.out(i), w[i], where=r.where())
    for j in range(cols):
        for i in range(n):
            e = num(0)
            for t in range(n):
                e = n_add(e, n_mul(W[i][t], J[j * n + t]))
            c.equal("%s/%sj: Jacobian %d,%d" % (F, k, i, j), r.out(n + j * n + i), e, where=r.where())


main("C17", RULE, body, min_obl=150, assumptions=[
    "arithmetic over the reals (rounding, overflow and denormals outside the property)",
    "variances and standard deviations > 0, covariances positive definite (2x2 instance)",
    "Eigen and libm elementary functions are what their names say"])
