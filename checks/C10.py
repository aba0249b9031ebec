"""Gradient clipping and the minimum-diagonal check mean the same in all solvers."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from solver_oracle import *  # noqa

RULE = ("with symbolic clipping value and diagonal threshold, each solver's gradient is the user's limited to [-v, v] (untouched for 0), the displacement "
        "solves the clipped system, and building fails exactly when the cost is invalid or a diagonal entry is smaller than a positive threshold")


def body(c):
    m = compile_client(c.work, "solver.cpp", shards=8, defs=["-DVP_SEQ=SEQ(bE) SEQ(bB)"])
    clip, mind = V("clip", "0+"), V("mindiag")

    def clamp(v):
        return ite(cmp_eq(clip, 0), num(v), ite(cmp_lt(v, -clip), num(-clip), ite(cmp_lt(clip, v), num(clip), num(v))))

    def layout(root):
        kind, size = root.split("_")
        n = int(size[0]) if size[0] != "x" else 2
        return kind, n, 4 + n + (0 if kind == "gd" else n * n) + 1 + n

    def good(r):
        g = T
        for d in r.it.decomps:
            g = land(g, land(d["ok"], cmp_eq(d["sign"], 0)))
        return g

    def clipping(root, ldlt, damp=V("damp", "+")):
        kind, n, step = layout(root)
        key = root + ("" if kind == "gd" else " LDLT" if ldlt is T else " inverse") + (", damping disabled" if damp == 0 else "")
        r = analyse(c, m, "vp_" + root, opts(ldlt=ldlt, clip=clip, damp=damp) + [Arr("p", 2), Arr("q", 2), OUT])
        w = r.where()
        for k, base in enumerate("pq"):
            at = " (build %d)" % (k + 1)
            cost, cnt, g, H = user(arr(base, 2), n)
            ok = valid(cost, cnt)
            o = step * k
            cg = [clamp(x) for x in g]
            c.equal(key + ": clipping does not change the success" + at, r.out(o), ite(ok, num(1), num(0)), where=w)
            for i in range(n):
                c.equal(key + ": clipped gradient %d" % i + at, r.out(o + 4 + i), cg[i], ok, where=w)
            o += 4 + n + (0 if kind == "gd" else n * n)
            care = land(ok, good(r))
            if kind == "gd":
                dx = [n_mul(-V("lr"), x) for x in cg]
            else:
                if kind == "lm":
                    H = [[H[i][j] * (alg.lift(damp) + 1) if i == j else H[i][j] for j in range(n)] for i in range(n)]
                S = sym(H) if ldlt is T else H
                gs = [V("g#%d" % i) for i in range(n)]
                dx = [mapn(lambda *a, x=x: alg.subst(x, dict(zip(map(kernel_of, gs), a))), cg, ("clipped", x)) for x in solution(S, [-x for x in gs])[0]]
                care = land(care, cmp_lt(alg.const(Fraction(1, 10 ** 6)), S[0][0]) if ldlt is F and n == 1 else positive(S))
            if root.endswith("x"):     # a run-time sized back substitution treats zero entries apart: same value, checked by C08
                care = land(care, lnot(mapn(lambda v: cmp_eq(v, 0), [dx[-1]], "zero")))
            for i in range(n):
                c.equal(key + ": displacement %d from the clipped gradient" % i + at, r.out(o + 1 + i), dx[i], care, where=w)

    def diagonal(root, ldlt, damp=V("damp", "+")):
        kind, n, step = layout(root)
        key = root + (" LDLT" if ldlt is T else " inverse") + (", damping disabled" if damp == 0 else "")
        r = analyse(c, m, "vp_" + root, opts(ldlt=ldlt, mindiag=mind, damp=damp) + [Arr("p", 2), Arr("q", 2), OUT])
        w = r.where()
        for k, base in enumerate("pq"):
            at = " (build %d)" % (k + 1)
            cost, cnt, g, H = user(arr(base, 2), n)
            small = F
            for i in range(n):
                small = lor(small, land(cmp_lt(-mind, H[i][i]), cmp_lt(H[i][i], mind)))
            ok = land(valid(cost, cnt), lnot(land(cmp_lt(0, mind), small)))
            c.equal(key + ": build fails on small diagonal entries only" + at, r.out(step * k), ite(ok, num(1), num(0)), where=w)
            for i in range(n):
                c.equal(key + ": gradient %d unchanged by the diagonal check" % i + at, r.out(step * k + 4 + i), num(g[i]), ok, where=w)
                f = alg.lift(damp) + 1 if kind == "lm" else alg.const(1)
                c.equal(key + ": diagonal entry %d unchanged by the check" % i + at, r.out(step * k + 4 + n + i * n + i), num(H[i][i] * f), ok, where=w)

    def kept(q):
        r = analyse(c, m, "vp_seq_" + q, opts(clip=clip) + [Arr("p", 2), Arr("q", 2), OUT])
        cx, nx, gx, _ = user(arr("p", 2))
        cy, ny, gy, _ = user(arr("q", 2))
        for i in range(2):
            c.equal("lm_2 %s: clipped gradient %d" % ("kept system" if q == "bE" else "after a bad step", i), r.out(4 + i), clamp((gx if q == "bE" else gy)[i]),
                    land(valid(cx, nx), valid(cy, ny)), where=r.where())

    c.parallel([lambda a=a: clipping(*a) for a in [(r, x) for r in ("gn_2", "gn_2f", "gn_x", "gn_1", "lm_2", "lm_2f", "lm_x", "lm_1") for x in (T, F)] +
                [(r, T) for r in ("gd_2", "gd_2f", "gd_x")] + [(r, T, 0) for r in ("lm_2", "lm_x", "lm_1")]] +
               [lambda a=a: diagonal(*a) for a in [(r, x) for r in ("gn_2", "gn_2f", "gn_x", "gn_1", "gn_3", "lm_2", "lm_2f", "lm_x", "lm_1") for x in (T, F)] + [(r, T, 0) for r in ("lm_2", "lm_x", "lm_1")]] +
               [lambda q=q: kept(q) for q in ("bE", "bB")])


main("C10", RULE, body, min_obl=300, assumptions=["real arithmetic", "clipping value not negative", "Eigen's LDLT factorises and solves correctly",
                                                 "positive definite Hessian for the displacement"])
