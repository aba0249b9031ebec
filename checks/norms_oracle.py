"""closed forms of the norms, shared by C17 and C19"""
from fw import *  # noqa


def sumsq(x):
    return sum((a * a for a in x), alg.const(0))


def o_norm(name, x):
    """value of the norm of the list x as a decision diagram"""
    if name == "SquaredL2":
        return num(sumsq(x))
    if name == "L2":
        return num(alg.sqrt(sumsq(x))) if len(x) > 1 else n_abs(x[0])
    if name == "L1":
        r = num(0)
        for a in x:
            r = n_add(r, n_abs(a))
        return r
    if name == "Linf":
        r = n_abs(x[0])
        for a in x[1:]:
            b = n_abs(a)
            r = ite(mapn(lambda p, q: dd.cmp_leaf(p, q, {">"}, False, False), [b, r], "o_gt"), b, r)
        return r


def regular(name, x):
    """points where the norm is differentiable"""
    c = T
    if name == "L2":
        c = lnot(cmp_eq(sumsq(x), 0))
        if len(x) == 1:
            c = lnot(cmp_eq(x[0], 0))
    if name == "L1" or name == "Linf":
        for a in x:
            c = land(c, lnot(cmp_eq(a, 0)))
    if name == "Linf":
        for i in range(len(x)):
            for j in range(i):
                c = land(c, land(lnot(cmp_eq(x[i], x[j])), lnot(cmp_eq(x[i], -x[j]))))
    return c


def maha2(x, C):
    """x^T C^-1 x for 2x2 C = [[a,b],[b,d]]"""
    (a, b), (_, d) = C
    return (d * x[0] * x[0] - 2 * b * x[0] * x[1] + a * x[1] * x[1]) / (a * d - b * b)
