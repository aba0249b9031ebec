"""Automatic differentiation assembles residuals, Jacobian, gradient and Hessian."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from fw import *  # noqa

RULE = ("for a user function given by uninterpreted values and partial derivatives, Eval returns its residuals and Jacobian in storage "
        "order and the function handed to the optimizer yields J^T r, J^T J, |r|^2 and the residual count at each of two successive points")


def f(i, x):
    return alg.call("u_f", (alg.const(i),) + tuple(x))


def fd(i, j, x):
    return alg.call("u_fa" if j == 0 else "u_fb", (alg.const(i),) + tuple(x))


def res(kind, x):
    """residuals and Jacobian of a client function"""
    if kind == "fc":
        return [alg.const(7)], [[alg.const(0)] * 2]
    n = {"f1": 1, "fm": 4}.get(kind, 2)
    r = [f(i, x) for i in range(n)]
    J = [[fd(i, j, x) for j in range(2)] for i in range(n)]
    if kind in ("fk", "fkx"):
        r[1] = alg.const(7)
        J[1] = [alg.const(0)] * 2
    return r, J


def sums(r, J, dims=2):
    n = len(r)
    z = alg.const(0)
    g = [sum((J[i][j] * r[i] for i in range(n)), z) for j in range(dims)]
    H = [sum((J[i][a] * J[i][b] for i in range(n)), z) for b in range(dims) for a in range(dims)]
    return [sum((x * x for x in r), z), alg.const(n)], g, H


def body(c):
    m = compile_client(c.work, "autodiff.cpp", shards=16)
    p, q = arr("p", 2), arr("q", 2)

    def outs(key, r, exp):
        for k, e in enumerate(exp):
            c.equal("%s: output %d" % (key, k), r.out(k), N(e), where=r.where())

    def one(root):
        w = root.split("_")
        if root.startswith("vp_e_"):
            kind = w[-1] if w[-1] in ("f1", "f2", "fx", "fm", "fr", "fk", "fkx", "fc") else "f2"
            fl = root == "vp_e_float"
            r, J = res(kind, p)
            Jc = [J[i][j] for j in range(2) for i in range(len(r))]
            a = analyse(c, m, root, [Arr("p", 2, sz=4 if fl else 8), OUT])
            outs("Eval " + root[5:], a, r + Jc + ([] if fl else Jc + p))
        elif root.startswith("vp_o_") or root.startswith("vp_ox_"):
            a = analyse(c, m, root, [Arr("p", 2), Arr("q", 2), OUT])
            exp = []
            for x in (p, q):
                cost, g, H = sums(*res(w[-1], x))
                exp += cost + g + H
            exp += cost + cost + g + q
            outs("optimize " + root[3:], a, exp)
    c.parallel([lambda root=root: one(root) for root in sorted(m.fns) if root.startswith(("vp_e_", "vp_o_", "vp_ox_"))])
    x4 = arr("p", 4)

    def g4(i):
        return alg.call("u_g", (alg.const(i),) + tuple(x4))

    def g4d(i, j):
        return alg.call("u_gd", (alg.const(i), alg.const(j)) + tuple(x4))
    for root in ("vp_m_22", "vp_m_x"):
        outs("Eval matrix " + root[5:], analyse(c, m, root, [Arr("p", 4), OUT]), [g4(0), g4(1)] + [g4d(i, j) for j in range(4) for i in range(2)])

    def s(i, x):
        return alg.call("u_s", (alg.const(i), x))

    def sd(i, x):
        return alg.call("u_sd", (alg.const(i), x))
    x, y = V("x"), V("x2")
    outs("Eval scalar 1", analyse(c, m, "vp_s_1", [x, OUT]), [s(0, x), sd(0, x)])
    outs("Eval scalar 2", analyse(c, m, "vp_s_2", [x, OUT]), [s(0, x), s(1, x), sd(0, x), sd(1, x)])
    for n, root in ((1, "vp_os"), (2, "vp_os2")):
        exp = []
        for t in (x, y):
            cost, g, H = sums([s(i, t) for i in range(n)], [[sd(i, t)] for i in range(n)], 1)
            exp += cost + g + H
        outs("optimize scalar %d" % n, analyse(c, m, root, [x, y, OUT]), exp + cost)
    outs("general cost", analyse(c, m, "vp_cost", [Arr("p", 2), OUT]), [f(0, p), f(0, p)])


main("C14", RULE, body, min_obl=1000, assumptions=["real arithmetic", "the user function is deterministic; its Jet version carries the true partial derivatives (C13)"])
