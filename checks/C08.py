"""Each solver solves its own freshly accumulated system."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from solver_oracle import *  # noqa

RULE = ("for a user function given by uninterpreted cost, gradient and Hessian increments, each of two successive builds calls it once on zeroed "
        "storage and the displacement is, in canonical form, the solution of H dx = -g (Gauss-Newton, Levenberg-Marquardt with its damped H) or -lr g "
        "(gradient descent); none is returned when the cost is invalid")


def body(c):
    m = compile_client(c.work, "solver.cpp", shards=8)

    def check(root, ldlt, damp=V("damp", "+")):
        kind, size = root.split("_")
        n = int(size[0]) if size[0] != "x" else 2
        lm = kind == "lm"
        key = root + ("" if kind == "gd" else " LDLT" if ldlt is T else " inverse") + (", damping disabled" if damp == 0 else "")
        r = analyse(c, m, "vp_" + root, opts(ldlt=ldlt, damp=damp) + [Arr("p", 2), Arr("q", 2), OUT])
        w = r.where()
        step = 4 + n + (0 if kind == "gd" else n * n) + 1 + n
        good = T
        for d in r.it.decomps:
            good = land(good, land(d["ok"], cmp_eq(d["sign"], 0)))
        for k, base in enumerate(("p", "q")):
            at = " (build %d)" % (k + 1)
            cost, cnt, g, H = user(arr(base, 2), n)
            ok = valid(cost, cnt)
            o = step * k
            c.equal(key + ": build succeeds" + at, r.out(o), ite(ok, num(1), num(0)), where=w)
            c.equal(key + ": user function called once" + at, r.out(o + 1), num(1), where=w)
            for i in range(n):
                c.equal(key + ": gradient %d is the user's" % i + at, r.out(o + 4 + i), num(g[i]), ok, where=w)
            o += 4 + n
            if lm:
                lam = alg.lift(damp) + 1
                H = [[H[i][j] * lam if i == j else H[i][j] for j in range(n)] for i in range(n)]
            if kind != "gd":
                for j in range(n):
                    for i in range(n):
                        c.equal(key + ": Hessian (%d,%d) is the user's" % (i, j) + at, r.out(o + n * j + i), num(H[i][j]), ok, where=w)
                o += n * n
            has = r.out(o)
            c.equal(key + ": no displacement for an invalid cost" + at, has, num(0), lnot(ok), where=w)
            care = ok
            if kind == "gd":
                dx = [-(V("lr") * x) for x in g]
            else:
                S = sym(H) if ldlt is T else H
                dx = solution(S, [-x for x in g])[0]
                care = land(care, good)
                if ldlt is F and n == 1:
                    low = land(care, cmp_le(S[0][0], 0))     # guards at the epsilon count as guards at 0
                    c.equal(key + ": a displacement is returned for a Hessian that is not positive" + at, has, num(1), low, where=w)
                    c.equal(key + ": no motion for a Hessian that is not positive" + at, r.out(o + 1), num(0), low, where=w)
                    care = land(care, cmp_lt(alg.const(Fraction(1, 10 ** 6)), S[0][0]))
                else:
                    care = land(care, positive(S))
            c.equal(key + ": a displacement is returned" + at, has, num(1), care, where=w)
            for i in range(n):
                c.equal(key + ": displacement %d" % i + at, r.out(o + 1 + i), num(dx[i]), care, where=w)

    c.parallel([lambda a=a: check(*a) for a in
                [(r, x) for r in ("gn_2", "gn_2f", "gn_x", "gn_1", "gn_3", "lm_2", "lm_2f", "lm_x", "lm_1") for x in (T, F)] +
                [(r, T) for r in ("gd_2", "gd_2f", "gd_x")] + [(r, x, 0) for r in ("lm_2", "lm_x", "lm_1") for x in (T, F)]])


if __name__ == "__main__":
    main("C08", RULE, body, min_obl=350, assumptions=["real arithmetic", "Eigen's LDLT factorises and solves correctly", "Hessian positive definite (LDLT) or non-singular (inverse)"])
