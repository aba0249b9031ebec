"""Numerical differentiation formulas."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from fw import *  # noqa

RULE = ("with an uninterpreted user function f, every Jacobian entry is the documented difference quotient of f at points that differ "
        "from x in one coordinate, residuals are f(x), x is unchanged, and gradient/Hessian/cost functions are J^T r, J^T J, |r|")
p = arr("p", 2)
h = V("h", "+")
METH = ("forward", "central", "fast central")


def f(i, a, b):
    return alg.call("u_f", (alg.const(i), a, b))


def fs(i, a):
    return alg.call("u_s", (alg.const(i), a))


def jac(i, j, method):
    def at(d):
        q = [p[k] + (d if k == j else 0) for k in range(2)]
        return f(i, *q)
    if method == 0:
        return (at(h) - at(0)) / h
    return (at(h) - at(-h)) / (2 * h)


def norm_of(r):
    if len(r) == 1:
        return n_abs(r[0])
    return num(alg.sqrt(sum((x * x for x in r), alg.const(0))))


def body(c):
    m = compile_client(c.work, "numdiff.cpp")
    NR = {"f1": 1, "f2": 2, "fx": 2, "fm": 4}

    def A(root, *args, sz=8):
        return analyse(c, m, root, list(args) + [Arr("out")])

    for mt in range(3):
        M_ = " (%s)" % METH[mt]
        for root in sorted(m.fns):
            if not root.startswith("vp_e_"):
                continue
            nr = NR.get(root.split("_")[-1], 2)
            sz = 4 if root.endswith("float") else 8
            r = A(root, Arr("p", 2, sz=sz), alg.const(mt), h)
            k, w = 0, r.where()
            for i in range(nr):
                c.equal("%s%s: residual %d" % (root[5:], M_, i), r.out(k), num(f(i, *p)), where=w)
                k += 1
            for rep in range(2 if sz == 8 else 1):
                for j in range(2):
                    for i in range(nr):
                        c.equal("%s%s: %s %d,%d" % (root[5:], M_, "EstimateNumJac" if rep else "Jacobian", i, j), r.out(k), num(jac(i, j, mt)), where=w)
                        k += 1
                if rep == 0 and sz == 8:
                    for j in range(2):
                        c.equal("%s%s: x%d unchanged" % (root[5:], M_, j), r.out(k), num(p[j]), where=w)
                        k += 1
        x = V("x")
        for n in (1, 2):
            r = A("vp_s_%d" % n, x, alg.const(mt), h)
            w = r.where()
            for i in range(n):
                lo, d = (x, h) if mt == 0 else (x - h, 2 * h)
                c.equal("scalar/%d%s: residual %d" % (n, M_, i), r.out(i), num(fs(i, x)), where=w)
                c.equal("scalar/%d%s: derivative %d" % (n, M_, i), r.out(n + i), num((fs(i, x + h) - fs(i, lo)) / d), where=w)
            c.equal("scalar/%d%s: x unchanged" % (n, M_), r.out(2 * n), num(x), where=w)
        for root in sorted(m.fns):
            if not root.startswith("vp_g"):
                continue
            nr = NR[root.split("_")[-1]]
            r = A(root, Arr("p", 2), alg.const(mt), h)
            w = r.where()
            res = [f(i, *p) for i in range(nr)]
            J = [[jac(i, j, mt) for j in range(2)] for i in range(nr)]
            g = [sum((J[i][j] * res[i] for i in range(nr)), alg.const(0)) for j in range(2)]
            H = [sum((J[i][a] * J[i][b] for i in range(nr)), alg.const(0)) for b in range(2) for a in range(2)]
            cost = [norm_of(res), num(nr)]
            exp = cost + g + (H if root.startswith("vp_g2") else []) + cost + (cost + g if root.startswith("vp_g2") else [])
            for k, e in enumerate(exp):
                c.equal("%s%s: output %d" % (root[3:], M_, k), r.out(k), N(e), where=w)
    r = A("vp_s_default", V("x"))
    # the default is a symmetric difference with a step that does not depend on f or x
    c.oblige("default step: symmetric difference", default_ok(r.out(0), V("x")), r.where(), "computes %s" % (r.out(0),))


def default_ok(v, x):
    if v.var is not None or not isinstance(v.val, R):
        return False
    args = {}
    for k in v.val.kernels():
        K = alg.KERNELS[k]
        if K.name == "u_s":
            d = K.args[1] - x
            if not d.is_const():
                return False
            args[d.cval()] = K
    if len(args) != 2:
        return False
    a, b = sorted(args)
    return a == -b and b > 0 and v.val == (alg.kvar(args[b]) - alg.kvar(args[a])) / alg.const(2 * b)


main("C15", RULE, body, min_obl=600, assumptions=["real arithmetic", "the user function is deterministic and does not modify its argument"])
