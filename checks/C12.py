"""Only the upper triangle of the Hessian has to be filled."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from solver_oracle import *  # noqa
import eig

RULE = ("the displacement's canonical form and every condition it depends on do not mention an entry below the diagonal of the user's Hessian when LDLT is "
        "used or the Hessian is declared not full, and equal the solution for the symmetric (as given: full, inverted directly) matrix")


def body(c):
    m = compile_client(c.work, "solver.cpp", shards=8, defs=["-DVP_SEQ=SEQ(bE) SEQ(bB) SEQ(bEbE)"])
    ms = compile_client(c.work, "invcov.cpp", shards=8, opaque=eig.SPARSE_OPAQUE, defs=["-DVP_SOLVE_ONLY"])

    def mentions(node, H, n):
        low = {kernel_of(H[i][j]).id for i in range(n) for j in range(i)}
        for v in dd.support(node):
            if v.key[0] == "sgn" and low & set(v.key[1].kernels()):
                return str(v.label)
        for x in dd.leaves(node):
            if isinstance(x, R) and low & set(x.kernels()):
                return str(x)
        return None

    def sparse():
        r = analyse(c, ms, "vp_sp_solve", [Arr("A", 0), Arr("b", 2), OUT], summaries=eig.SPARSE)
        c.oblige("sparse solve: decompositions found", len(r.it.decomps) > 0, r.where(), "no decomposition")
        for d in r.it.decomps:
            mm = re.search(r"Simplicial\w+<Eigen::SparseMatrix<[^<>]*>, (\d+)", d["dem"])
            c.oblige("sparse solve: the decomposition reads the upper triangle", bool(mm) and mm.group(1) == "2", loc_str(d["loc"]), d["dem"][:120])

    def check(root, ldlt, full, damp=V("damp", "+")):
        seq = root.startswith("seq")
        if seq:
            kind, n = "lm", 2
        else:
            kind, size = root.split("_")
            n = int(size[0]) if size[0] != "x" else 2
        step = 4 + n + n * n + 1 + n
        key = "%s %s %s" % (root, "LDLT" if ldlt is T else "inverse", "full" if full is T else "upper triangle only") + (", damping disabled" if damp == 0 else "")
        r = analyse(c, m, "vp_" + root, opts(ldlt=ldlt, full=full, damp=damp) + [Arr("p", 2), Arr("q", 2), OUT])
        w = r.where()
        good = T
        for d in r.it.decomps:
            good = land(good, land(d["ok"], cmp_eq(d["sign"], 0)))
        for k, base in enumerate("pq"):
            if seq and base != ("p" if "E" in root else "q"):
                continue
            at = "" if seq else " (build %d)" % (k + 1)
            cost, cnt, g, H = user(arr(base, 2), n)
            o = 14 if seq else step * k + 4 + n + n * n
            if ldlt is T or full is F:
                for i in range(n + 1):
                    t = mentions(dd.restrict(r.out(o + i), valid(cost, cnt)), H, n)
                    c.oblige(key + ": output %d ignores the lower triangle" % i + at, t is None, w, "depends on %s" % t)
            if seq:
                continue
            lam = alg.lift(damp) + 1 if kind == "lm" else alg.const(1)
            H = [[H[i][j] * lam if i == j else H[i][j] for j in range(n)] for i in range(n)]
            S = H if ldlt is F and full is T else sym(H)
            dx = solution(S, [-x for x in g])[0]
            care = land(land(valid(cost, cnt), good), positive(S))
            for i in range(n):
                c.equal(key + ": displacement %d" % i + at, r.out(o + 1 + i), num(dx[i]), care, where=w)

    c.parallel([lambda a=(r, x, y): check(*a) for r in ("gn_2", "gn_2f", "gn_x", "gn_3", "lm_2", "lm_2f", "lm_x", "seq_bE", "seq_bB", "seq_bEbE") for x in (T, F) for y in (T, F)] +
               [lambda a=(r, x, y, 0): check(*a) for r in ("lm_2", "lm_x", "seq_bE", "seq_bB") for x in (T, F) for y in (T, F)] + [sparse])


main("C12", RULE, body, min_obl=200, assumptions=["real arithmetic", "Eigen's LDLT factorises and solves correctly", "positive definite Hessian for the displacement values"])
