"""Gradient checkers compare what they claim to compare."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from fw import *  # noqa

RULE = ("with uninterpreted cost/residuals, gradient and Hessian of the user: the condition under which the checker returns true equals, as a decision diagram, "
        "`every |entry - difference quotient| < eps` (equality itself left open); a NaN entry never passes; x is unchanged; the sparse maximal difference is that of the "
        "entries for every pattern of stored entries")
METH = ("forward", "central", "fast central")
eps = V("eps", "+")
h = eps / 10


def f(i, q):
    return alg.call("u_f", (alg.const(i), q[0], q[1]))


def boolvar(name):
    return dd.mk(dd.mkvar(("bool", name), ("false", "true"), name), [F, T])


def quotient(fn, p, j, mt):
    def at(d):
        return fn([p[k] + (d if k == j else 0) for k in range(2)])
    if mt == 0:
        return (at(h) - at(0)) / h
    return (at(h) - at(-h)) / (2 * h)


def body(c):
    dd.CFG["extrema"] = True
    m = compile_client(c.work, "gradcheck.cpp", shards=8)

    def within(entries):
        """(every entry is within eps, no entry is exactly eps away)"""
        ok, care = T, T
        for d in entries:
            for x in (d, -d):
                ok = land(ok, cmp_lt(x, eps))
                care = land(care, lnot(cmp_eq(x, eps)))
        return ok, care

    def unchanged(key, r, p, w):
        for i in range(2):
            c.equal("%s: x%d unchanged" % (key, i), r.out(1 + i), num(p[i]), where=w)

    def point(root):
        return [V("p0"), V("p1") if "v1" not in root else alg.const(0)]

    def cost(root, mt):
        def go():
            p, n = point(root), 1 if "v1" in root else 2
            r = analyse(c, m, root, [Arr("p", 2), eps, alg.const(mt), alg.const(-1), OUT])
            w, key = r.where(), "%s (%s)" % (root[3:], METH[mt])
            ok, care = within([quotient(lambda q: f(0, q), p, j, mt) - alg.call("u_g", (alg.const(j), p[0], p[1])) for j in range(n)])
            c.equal(key + ": passes exactly if every entry is within eps", dd.unsup(r.out(0)), ite(ok, num(1), num(0)), care, where=w)
            unchanged(key, r, p, w)
            for k in range(n):
                r = analyse(c, m, root, [Arr("p", 2), eps, alg.const(mt), alg.const(k), OUT])
                c.equal("%s: NaN in entry %d does not pass" % (key, k), dd.unsup(r.out(0)), num(0), where=w)
        return go

    def resid(root, mt, check, down):
        def go():
            p, n = point(root), 1 if "v1" in root else 2
            nr, has = 1 if root.endswith("_1") else 2, "_r3_" in root
            args = lambda k: [Arr("p", 2), eps, alg.const(mt), alg.const(k), num(check), num(down), OUT]  # noqa
            r = analyse(c, m, root, args(-1))
            w, key = r.where(), "%s (%s%s%s)" % (root[3:], METH[mt], ", with Hessian" if check else "", ", halved" if down else "")
            s = alg.const(Fraction(1, 2) if down else 1)
            ent = [quotient(lambda q: s * sum((f(i, q) * f(i, q) for i in range(nr)), alg.const(0)), p, j, mt) - alg.call("u_g", (alg.const(j), p[0], p[1])) for j in range(n)]
            if has and check:
                J = [[quotient(lambda q: f(i, q), p, j, mt) for j in range(n)] for i in range(nr)]
                ent += [sum((J[k][i] * J[k][j] for k in range(nr)), alg.const(0)) - alg.call("u_h", (alg.const(i), alg.const(j), p[0], p[1])) for j in range(n) for i in range(n)]
            ok, care = within(ent)
            c.equal(key + ": passes exactly if every entry is within eps", dd.unsup(r.out(0)), ite(ok, num(1), num(0)), care, where=w)
            unchanged(key, r, p, w)
            for k in list(range(n)) + ([2 + i + 2 * j for i in range(n) for j in range(n)] if has and check else []):
                r = analyse(c, m, root, args(k))
                c.equal("%s: NaN in entry %d does not pass" % (key, k), dd.unsup(r.out(0)), num(0), where=w)
        return go

    def maxdiff(ma):
        def go():
            a, b = arr("a", 4), arr("b", 4)
            for mb in range(16):
                r = analyse(c, m, "vp_maxdiff", [Arr("a", 4), Arr("b", 4), alg.const(ma), alg.const(mb), alg.const(-1), alg.const(-1), OUT])
                d = [(a[k] if ma >> k & 1 else alg.const(0)) - (b[k] if mb >> k & 1 else alg.const(0)) for k in range(4)]
                e = V("bound", "+")
                ok, care = T, T
                for x in d:
                    for y in (x, -x):
                        ok = land(ok, cmp_lt(y, e))
                        care = land(care, lnot(cmp_eq(y, e)))
                c.equal("largest difference of sparse matrices with patterns %d and %d" % (ma, mb), dd.unsup(ite(cmp_lt(r.out(0), e), num(1), num(0))), ite(ok, num(1), num(0)), care,
                        where=r.where())
                for k, (wa, wb) in [(k, w) for k in range(4) for w in ((k, -1), (-1, k)) if (ma if w[0] == k else mb) >> k & 1]:
                    r = analyse(c, m, "vp_maxdiff", [Arr("a", 4), Arr("b", 4), alg.const(ma), alg.const(mb), alg.const(wa), alg.const(wb), OUT])
                    c.equal("difference of sparse matrices with patterns %d and %d, NaN in entry %d of the %s: not below a bound" % (ma, mb, k, "first" if wa == k else "second"),
                            dd.unsup(ite(cmp_lt(r.out(0), e), num(1), num(0))), num(0), where=r.where())
        return go
    tasks = []
    for mt in range(3):
        for root in sorted(m.fns):
            if root.startswith(("vp_c2_", "vp_c3_")):
                tasks.append(cost(root, mt))
            elif root.startswith(("vp_r2_", "vp_r3_")):
                tasks += [resid(root, mt, ch, dn) for ch, dn in ((1, 1), (0, 0))]
    tasks += [maxdiff(k) for k in range(16)]
    c.parallel(tasks)


if __name__ == "__main__":
    main("C21", RULE, body, min_obl=150, assumptions=["real arithmetic", "the user function is deterministic and leaves x alone; it fills the Hessian only when asked for a gradient",
                                                      "sparse Hessians: only the comparison of two sparse matrices is analysed"])
