"""Cost accumulation."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from fw import *  # noqa

RULE = ("constructing, assigning, accumulating and comparing costs: value, residual count, inlier ratio (as a ratio of integers), "
        "validity and conversion have the documented canonical form for symbolic counts and inlier numbers")


def body(c):
    m = compile_client(c.work, "cost.cpp")
    a, b = V("a"), V("b")
    n, k = V("n", "0+", True), V("k", "0+", True)      # residual counts
    i, j = V("i", "0+", True), V("j", "0+", True)      # inlier counts
    x = arr("x", 4)
    MAX = V("DBL_MAX", "+")

    def state(key, r, cost, cnt, inl, care=T, ratio=None):
        """expected cost, count and number of inliers"""
        w = r.where()
        cost, cnt, inl = alg.lift(cost), alg.lift(cnt), alg.lift(inl)
        c.equal(key + ": cost", r.out(0), num(cost), care, where=w)
        c.equal(key + ": conversion", r.out(6), num(cost), care, where=w)
        c.equal(key + ": residuals", r.out(1), num(cnt), care, where=w)
        pos = land(care, cmp_lt(0, cnt)) if not cnt.is_const() else (care if cnt.cval() > 0 else F)
        if pos is not F:
            c.equal(key + ": inlier ratio", r.out(2), num(ratio if ratio is not None else inl / cnt), pos, where=w)
        c.equal(key + ": inliers", r.out(4), num(inl), care, where=w)
        c.equal(key + ": outliers", r.out(5), num(cnt - inl), care, where=w)
        val = land(cmp_lt(0, cnt), lnot(cmp_eq(cost, MAX)))
        c.equal(key + ": valid", r.out(3), ite(val, num(1), num(0)), care, where=w)

    def A(*args):
        return analyse(c, m, *args)
    q3 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2]
    q4 = q3 + x[3] * x[3]
    nz, kz = lnot(cmp_eq(n, 0)), lnot(cmp_eq(k, 0))
    state("default", A("vp_default", [OUT]), 0, 0, 0)
    state("scalar", A("vp_scalar", [a, OUT]), a, 1, 1)
    state("full", A("vp_full", [a, n, i / n, OUT]), a, n, i, nz)
    state("count", A("vp_count", [a, n, OUT]), a, n, n)
    state("vector", A("vp_vec", [Arr("x", 3), OUT]), q3, 3, 3)
    state("vector with ratio", A("vp_vecr", [Arr("x", 3), i / 3, OUT]), q3, 3, i)
    state("float vector", A("vp_vecf", [Arr("x", 3, sz=4), OUT]), q3, 3, 3)
    state("matrix", A("vp_mat", [Arr("x", 4), OUT]), q4, 4, 4)
    state("dynamic vector", A("vp_dyn", [Arr("x", 3), OUT]), q3, 3, 3)
    r = A("vp_assign", [a, n, i / n, Arr("x", 3), OUT])
    c.equal("assign: cost", r.out(0), num(q3), nz, where=r.where())
    c.equal("assign: residuals", r.out(1), num(3), nz, where=r.where())
    r = A("vp_assign_mat", [a, n, i / n, Arr("x", 4), OUT])
    c.equal("assign matrix: cost", r.out(0), num(q4), nz, where=r.where())
    c.equal("assign matrix: residuals", r.out(1), num(4), nz, where=r.where())
    state("dynamic matrix", A("vp_dynm", [Arr("x", 4), OUT]), q4, 4, 4)
    state("add dynamic matrix", A("vp_add_dyn", [a, n, i / n, Arr("x", 4), OUT]), a + q4, n + 4, i + 4, nz)
    state("add", A("vp_add", [a, n, i / n, b, k, j / k, OUT]), a + b, n + k, i + j, land(nz, kz))
    state("add to default", A("vp_add_zero", [b, k, j / k, OUT]), b, k, j, kz)
    state("add vector", A("vp_add_vec", [a, n, i / n, Arr("x", 3), OUT]), a + q3, n + 3, i + 3, nz)
    state("add matrix", A("vp_add_mat", [a, n, i / n, Arr("x", 4), OUT]), a + q4, n + 4, i + 4, nz)
    state("add self", A("vp_add_self", [a, n, i / n, OUT]), 2 * a, 2 * n, 2 * i, nz)
    state("add scalar", A("vp_add_scalar", [a, n, i / n, b, OUT]), a + b, n + 1, i + 1, nz)
    state("add residuals", A("vp_addres", [a, n, i / n, k, j, OUT]), a, n + k, i + j, land(nz, kz))
    r = A("vp_cmp", [a, n, i / n, b, k, j / k, OUT])
    lt, le = ite(cmp_lt(a, b), num(1), num(0)), ite(cmp_le(a, b), num(1), num(0))
    for t, e in enumerate((lt, le, lt, le)):
        c.equal("compare %d" % t, r.out(t), e, where=r.where())
    r = A("vp_cmpf", [a, n, i / n, b, OUT])
    c.equal("compare float <", r.out(0), lt, where=r.where())
    c.equal("compare float <=", r.out(1), le, where=r.where())


main("C26", RULE, body, min_obl=100, assumptions=[
    "real arithmetic: the stored ratio is exactly inliers/residuals (float rounding of the ratio outside the property)",
    "residual counts do not overflow int", "string members are opaque"])
