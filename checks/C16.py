"""Robust losses: value and derivative."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from fw import *  # noqa

RULE = ("for every robust loss and every kind of derivative request the canonical form of the returned value equals the "
        "documented loss of (n2, th2), and the returned scale/Jacobian equals the symbolic derivative of that loss")
n2, th2 = V("n2", "0+"), V("th2", "+")
th = alg.sqrt(th2)


def loss(name, n2):
    i = cmp_le(n2, th2)
    if name == "Truncated":
        return ite(i, num(n2), num(th2))
    if name == "Huber":
        return ite(i, num(n2), num(2 * th * alg.sqrt(n2) - th2))
    if name == "Tukey":
        return ite(i, num(th2 * (1 - (1 - n2 / th2) ** 3)), num(th2))
    if name == "Arctan":
        return num(th * alg.MATH["atan2"](n2, th))
    if name == "Cauchy":
        return num(th2 * alg.log(1 + n2 / th2))
    if name == "GemanMcClure":
        return num(n2 / (n2 + th2))
    if name == "BlakeZisserman":
        return num(-alg.log(alg.exp(-n2) + alg.exp(-th2)))


NAMES = ["Truncated", "Huber", "Tukey", "Arctan", "Cauchy", "GemanMcClure", "BlakeZisserman"]


def body(c):
    m = compile_client(c.work, "robust.cpp", opaque=[])
    x3 = arr("x", 3)
    q = x3[0] * x3[0] + x3[1] * x3[1] + x3[2] * x3[2]
    kink = {"Truncated"}
    for L in NAMES:
        l = loss(L, n2)
        d = n_diff(l, n2)
        care = T if L not in kink else lnot(cmp_eq(n2, th2))
        for suf, sz in (("v", 8), ("vf", 4)):
            r = analyse(c, m, "vp_%s_%s" % (L, suf), [n2, th2])
            c.equal("%s/%s: loss" % (L, suf), r.ret, l, where=r.where())
        for suf, sz in (("s", 8), ("sf", 4)):
            r = analyse(c, m, "vp_%s_%s" % (L, suf), [n2, th2, OUT])
            c.equal("%s/%s: loss" % (L, suf), r.out(0, sz), l, where=r.where())
            c.equal("%s/%s: scale = d loss/d n2" % (L, suf), r.out(1, sz), d, care, where=r.where())
        J = arr("J", 3)
        for suf in ("j", "p"):
            r = analyse(c, m, "vp_%s_%s" % (L, suf), [n2, th2, Arr("J", 3), OUT])
            c.equal("%s/%s: loss" % (L, suf), r.out(0), l, where=r.where())
            for i in range(3):
                c.equal("%s/%s: scaled Jacobian %d" % (L, suf, i), r.out(1 + i), n_mul(d, J[i]), care, where=r.where())
        # losses of vectors
        sub = {kernel_of(n2): q}
        lx, dx = n_subst(l, sub), n_subst(d, sub)
        carex = n_subst(care, sub)
        r = analyse(c, m, "vp_%sLoss_v" % L, [Arr("x", 3), th2])
        c.equal("%sLoss/v: loss" % L, r.ret, lx, where=r.where())
        r = analyse(c, m, "vp_%sLoss_b" % L, [Arr("x", 3), th2, OUT])
        c.equal("%sLoss/b: loss" % L, r.out(0), lx, where=r.where())
        for i in range(3):
            c.equal("%sLoss/b: Jacobian %d" % (L, i), r.out(1 + i), n_mul(dx, 2 * x3[i]), carex, where=r.where())
        Jm = arr("Jx", 6)
        r = analyse(c, m, "vp_%sLoss_j" % L, [Arr("x", 3), th2, Arr("Jx", 6), OUT])
        c.equal("%sLoss/j: loss" % L, r.out(0), lx, where=r.where())
        for j in range(2):
            g = sum((2 * x3[i] * Jm[3 * j + i] for i in range(3)), alg.const(0))
            c.equal("%sLoss/j: Jacobian %d" % (L, j), r.out(1 + j), n_mul(dx, g), carex, where=r.where())
        s = V("s")
        sub = {kernel_of(n2): s * s}
        r = analyse(c, m, "vp_%sLoss_sv" % L, [s, th2])
        c.equal("%sLoss/sv: loss" % L, r.ret, n_subst(l, sub), where=r.where())


main("C16", RULE, body, min_obl=150, assumptions=[
    "arithmetic over the reals (rounding, overflow and denormals outside the property)",
    "n2 >= 0 and th2 > 0", "Eigen and libm elementary functions are what their names say"])
