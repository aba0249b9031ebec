"""Distances: value and both Jacobians."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from fw import *  # noqa
from norms_oracle import *  # noqa

RULE = ("for every distance d(a,b), the canonical form of the returned value equals the documented distance and the two Jacobians "
        "equal its symbolic derivatives with respect to a and to b")


def body(c):
    m = compile_client(c.work, "distances.cpp")
    a, b = arr("a", 3), arr("b", 3)
    AB = [Arr("a", 3), Arr("b", 3)]
    d = [p - q for p, q in zip(a, b)]

    def one(F, val, care, xs, ys, args, vs="v", bs="b"):
        n = len(xs)
        r = analyse(c, m, "vp_%s_%s" % (F, vs), args)
        c.equal("%s/%s: value" % (F, vs), r.ret, val, land(care[0], r.guard), where=r.where())
        r = analyse(c, m, "vp_%s_%s" % (F, bs), args + [OUT])
        c.equal("%s/%s: value" % (F, bs), r.out(0), val, land(care[0], r.guard), where=r.where())
        for i in range(n):
            c.equal("%s/%s: Ja %d" % (F, bs, i), r.out(1 + i), n_diff(val, xs[i]), land(care[1], r.guard), where=r.where())
            c.equal("%s/%s: Jb %d" % (F, bs, i), r.out(1 + n + i), n_diff(val, ys[i]), land(care[1], r.guard), where=r.where())
    sa, sb = V("sa"), V("sb")
    for F, L in (("Euclidean", "L2"), ("L2", "L2"), ("Manhattan", "L1"), ("L1", "L1"), ("Linf", "Linf")):
        one(F, o_norm(L, d), (T, regular(L, d)), a, b, AB)
        one(F, o_norm(L, [sa - sb]), (T, regular(L, [sa - sb])), [sa], [sb], [sa, sb], "sv", "sb")
    ab = sum((p * q for p, q in zip(a, b)), alg.const(0))
    na, nb = alg.sqrt(sumsq(a)), alg.sqrt(sumsq(b))
    nz = land(cmp_lt(0, sumsq(a)), cmp_lt(0, sumsq(b)))
    one("Cosine", num(ab / (na * nb)), (nz, nz), a, b, AB)
    # Mahalanobis
    v = V("v", "+")
    s = sa - sb
    r = analyse(c, m, "vp_Maha_sv", [sa, sb, v])
    r2 = analyse(c, m, "vp_Maha_sb", [sa, sb, v, OUT])
    for k, got in (("sv", r.ret), ("sb", r2.out(0))):
        c.equal("Maha/%s: value squared" % k, n_mul(got, got), num(s * s / v), where=r.where())
        c.never("Maha/%s: sign" % k, mapn(lambda x: dd.sgn_test(x, {"<"}) if isinstance(x, R) else True, [got], "isneg"), r.where(), "negative")
    nz = lnot(cmp_eq(s, 0))
    c.equal("Maha/sb: Ja", n_mul(r2.out(1), r2.out(0)), num(s / v), nz, where=r2.where())
    c.equal("Maha/sb: Jb", n_mul(r2.out(2), r2.out(0)), num(-s / v), nz, where=r2.where())
    vv = arr("v", 3, "+")
    q = sum((x * x / y for x, y in zip(d, vv)), alg.const(0))
    one("Maha", num(alg.sqrt(q)), (T, cmp_lt(0, q)), a, b, AB + [Arr("v", 3, sign="+")], "vv", "vb")
    A0, B0, D0 = V("C0", "+"), V("C2"), V("C3", "+")
    dd.assume_sign(A0 * D0 - B0 * B0, (">0",))
    q = maha2(d[:2], ((A0, B0), (B0, D0)))
    one("Maha", num(alg.sqrt(q)), (T, cmp_lt(0, q)), a[:2], b[:2], [Arr("a", 2), Arr("b", 2), Arr("C", 4, vals=[A0, B0, B0, D0])], "cv", "cb")


main("C19", RULE, body, min_obl=80, assumptions=[
    "arithmetic over the reals (rounding, overflow and denormals outside the property)",
    "variances > 0, covariance positive definite (2x2 instance); Jacobians where the distance is differentiable",
    "Eigen and libm elementary functions are what their names say"])
