"""Cost scaling options transform the cost in the documented way everywhere."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from solver_oracle import *  # noqa

RULE = ("with the three scaling options symbolic, the cost reported by a build, by an evaluation and by a kept Levenberg-Marquardt system is in canonical "
        "form the user's cost, square-rooted, halved and divided by the residual count as the options say; the residual count is the user's")


def body(c):
    m = compile_client(c.work, "solver.cpp", shards=8, defs=["-DVP_SEQ=SEQ(bE) SEQ(bB) SEQ(bEbE)"])
    sq, half, norm = boolvar("sq"), boolvar("half"), boolvar("norm")

    def scaled(cost, cnt):
        t = ite(sq, num(cost), num(alg.sqrt(cost)))
        t = ite(half, n_mul(t, Fraction(1, 2)), t)
        return ite(land(norm, cmp_lt(0, cnt)), n_mul(t, alg.const(1) / cnt), t)

    def args():
        return opts(sq=sq, half=half, norm=norm) + [Arr("p", 2), Arr("q", 2), OUT]

    def built(root):
        kind, size = root.split("_")
        n = int(size[0]) if size[0] != "x" else 2
        step = 4 + n + (0 if kind == "gd" else n * n) + 1 + n
        r = analyse(c, m, "vp_" + root, args())
        for k, base in enumerate("pq"):
            cost, cnt, g, H = user(arr(base, 2), n)
            at = " (build %d)" % (k + 1)
            c.equal(root + ": scaled cost" + at, r.out(step * k + 2), scaled(cost, cnt), where=r.where())
            c.equal(root + ": residual count" + at, r.out(step * k + 3), num(cnt), where=r.where())
            for i in range(n):
                c.equal(root + ": gradient %d not scaled" % i + at, r.out(step * k + 4 + i), num(g[i]), land(cmp_lt(0, cnt), cmp_lt(cost, V("DBL_MAX", "+"))), where=r.where())

    def evaluated(kind):
        r = analyse(c, m, "vp_ev_" + kind, args())
        w = r.where()
        cx, nx, gx, Hx = user(arr("p", 2))
        cy, ny, gy, Hy = user(arr("q", 2))
        exp = [("evaluated cost", scaled(cy, ny)), ("stored cost untouched", scaled(cx, nx)), ("stored count untouched", num(nx)), ("evaluated and saved cost", scaled(cy, ny)),
               ("saved cost", scaled(cy, ny)), ("saved count", num(ny)), ("number of user calls", num(2))]
        for i, (k, e) in enumerate(exp):
            c.equal("%s: %s" % (kind, k), r.out(i), e, where=w)
        care = land(land(cmp_lt(0, nx), cmp_lt(cx, V("DBL_MAX", "+"))), land(sq, land(lnot(half), lnot(norm))))
        for i in range(2):
            c.equal("%s: evaluation keeps gradient %d" % (kind, i), r.out(7 + i), num(gx[i]), care, where=w)
            if kind == "gn":
                for j in range(2):
                    c.equal("%s: evaluation keeps Hessian (%d,%d)" % (kind, i, j), r.out(9 + 2 * j + i), num(Hx[i][j]), care, where=w)

    def kept(q):
        r = analyse(c, m, "vp_seq_" + q, args())
        cy, ny, gy, Hy = user(arr("q", 2))
        k = "lm_2 " + ("kept system" if "E" in q else "rebuilt system")
        c.equal("%s (%s): scaled cost" % (k, q), r.out(2), scaled(cy, ny), where=r.where())
        c.equal("%s (%s): residual count" % (k, q), r.out(3), num(ny), where=r.where())

    c.parallel([lambda r=r: built(r) for r in ("gn_2", "gn_2f", "gn_x", "gn_1", "gn_3", "lm_2", "lm_2f", "lm_x", "lm_1", "gd_2", "gd_2f", "gd_x")] +
               [lambda r=r: evaluated(r) for r in ("gn", "lm", "gd")] + [lambda q=q: kept(q) for q in ("bE", "bB", "bEbE")])


main("C11", RULE, body, min_obl=80, assumptions=["real arithmetic"])
