"""A failed matrix decomposition never yields a result."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from solver_oracle import *  # noqa
import eig

RULE = ("SolveLDLT and InvCov of symbolic dense and sparse matrices return a value exactly when the decomposition they made of the upper triangle "
        "reports success (dense: and a semi-definite sign), and the value is, in canonical form, the solution or inverse; Covariance and MaxStdDev "
        "report absence in the other cases")


def accepted(c, key, r, S, w):
    """condition under which every decomposition of the run succeeded; each must be one of S"""
    ok = T
    for d in r.it.decomps:
        if d["kind"] == "simplicial":
            continue
        for i in range(len(S)):
            for j in range(len(S)):
                c.equal(key + ": entry (%d,%d) of the decomposed matrix is that of the upper triangle" % (i, j), d["A"][i][j], num(S[i][j]), d["guard"], where=w)
        ok = land(ok, d["ok"])
        if d["kind"] == "ldlt":
            ok = land(ok, lor(cmp_eq(d["sign"], 0), cmp_eq(d["sign"], 2)))
    return ok


def inverse(S):
    n = len(S)
    cols = [solution(S, [alg.const(int(i == k)) for i in range(n)])[0] for k in range(n)]
    return [[cols[j][i] for j in range(n)] for i in range(n)]


def body(c):
    m = compile_client(c.work, "invcov.cpp", shards=8, opaque=eig.SPARSE_OPAQUE)

    def mat(n, base="a"):
        return sym([[V("%s%d" % (base, j * n + i)) for j in range(n)] for i in range(n)])

    def has_value(key, r, has, S, w):
        if r.it.decomps:
            acc = accepted(c, key, r, S, w)
            c.equal(key + ": a value is returned exactly if the decomposition succeeded", has, ite(acc, num(1), num(0)), where=w)
            return land(acc, positive(S))
        c.never(key + ": no value for a matrix that is not positive semi-definite", land(cmp_lt(S[0][0], 0), lnot(cmp_eq(has, 0))), where=w,
                what="value without a decomposition")
        c.equal(key + ": a value is returned for a positive definite matrix", has, num(1), positive(S), where=w)
        return positive(S)

    def dense(root, n, sz):
        r = analyse(c, m, "vp_" + root, [Arr("a", n * n, sz), Arr("b", n, sz)] + [OUT])
        w, S = r.where(), mat(n)
        care = has_value(root, r, r.out(0), S, w)
        b = [V("b%d" % i) for i in range(n)]
        if root.startswith("solven"):
            b = [-x for x in b]
        for i, x in enumerate(solution(S, b)[0]):
            c.equal("%s: solution %d" % (root, i), r.out(1 + i), num(x), care, where=w)

    def inv(root, n, sz, S=None):
        r = analyse(c, m, "vp_" + root, [Arr("a", 9 if S else n * n, sz), OUT])
        w, S = r.where(), S or mat(n)
        if n == 1:
            c.equal(root + ": a value is returned", r.out(0), num(1), where=w)
            c.equal(root + ": reciprocal", r.out(1), num(alg.const(1) / S[0][0]), where=w)
            return
        care = has_value(root, r, r.out(0), S, w)
        I = inverse(S)
        for j in range(n):
            for i in range(n):
                c.equal("%s: inverse (%d,%d)" % (root, i, j), r.out(1 + n * j + i), num(I[i][j]), care, where=w)

    def query(root):
        r = analyse(c, m, "vp_" + root, [Arr("a", 4), OUT])
        w, S = r.where(), mat(2)
        I = inverse(S)
        each = []
        for d in r.it.decomps:
            each.append(land(d["ok"], lor(cmp_eq(d["sign"], 0), cmp_eq(d["sign"], 2))))
        allok, none = T, T
        for e in each:
            allok, none = land(allok, e), land(none, lnot(e))
        c.never(root + ": no exception", r.it.unreach, where=w, what="exception thrown")
        c.equal(root + ": covariance is absent if no decomposition succeeds", r.out(0), num(0), none, where=w)
        c.equal(root + ": covariance is present", r.out(0), num(1), allok, where=w)
        for k in range(4):
            c.equal("%s: covariance %d" % (root, k), r.out(1 + k), num(I[k % 2][k // 2]), land(allok, positive(S)), where=w)
        mx = ite(cmp_lt(I[0][0], I[1][1]), num(I[1][1]), num(I[0][0]))
        sd = mapn(lambda x: alg.sqrt(x), [mx], "sqrt")
        off = land(cmp_le(I[0][1], I[0][0]), cmp_le(I[0][1], I[1][1]))
        for k in (5, 6):
            c.equal("%s: MaxStdDev(%s) is 0 if no decomposition succeeds" % (root, "use_damped" if k == 5 else ""), r.out(k), num(0), none, where=w)
            c.equal("%s: MaxStdDev(%s)" % (root, "use_damped" if k == 5 else ""), r.out(k), sd, land(off, land(allok, positive(S))), where=w)

    def empty():
        r = analyse(c, m, "vp_inv_empty", [OUT])
        c.equal("inv_empty: nothing for an empty matrix", r.out(0), num(0), where=r.where())

    # sparse
    def value(it, name, dem, args, ins, mem, guard):
        return it.load(mem, eig.shadow(eig.ptr_of(args[0])), eig.F64), mem, guard

    def run(root, args, dim=None):
        def setup(it):
            it.sparse_dim = {"A": dim} if dim is not None else {}
        return analyse(c, m, root, args, setup=setup, summaries=[(re.compile("^vpx_value$"), value)] + eig.SPARSE)
    Aval = V("sparse:A[0]")

    def upper(r, key, w):
        for d in r.it.decomps:
            mm = re.search(r"Simplicial\w+<Eigen::SparseMatrix<[^<>]*>, (\d+)", d["dem"])
            c.oblige(key + ": the decomposition reads the upper triangle", bool(mm) and mm.group(1) == "2", loc_str(d["loc"]), d["dem"][:120])

    def factor(shift, scale=1):
        return alg.call("sp_ldlt", (Aval, alg.const(shift) if isinstance(shift, int) else shift, alg.const(scale)))

    def info(D):
        return alg.call("sp_info", (D,), isint=True)

    def sp_solve():
        r = run("vp_sp_solve", [Arr("A", 0), Arr("b", 2), OUT])
        w, D = r.where(), factor(0)
        upper(r, "sparse solve", w)
        c.equal("sparse solve: a value is returned exactly if the decomposition succeeded", r.out(0), ite(cmp_eq(info(D), 0), num(1), num(0)), where=w)
        for i in range(2):
            c.equal("sparse solve: solution %d" % i, r.out(1 + i), num(alg.call("sp_solve", (alg.const(i), D, V("b0"), V("b1")))), cmp_eq(info(D), 0), where=w)

    def sp_inv(root, args, shift):
        dim = num(V("dim", "0+", True))
        r = run(root, args, None if root.endswith("gn") else dim)
        w, D0 = r.where(), factor(0)
        upper(r, root, w)
        I = alg.call("sp_identity", ())
        some = T if root.endswith("gn") else cmp_lt(0, dim)
        exp, val = ite(cmp_eq(info(D0), 0), num(1), num(0)), num(alg.call("sp_result", (D0, I)))
        if shift is not None:
            D1 = factor(shift)
            again = land(cmp_lt(0, shift), cmp_eq(info(D0), 1))
            exp = ite(cmp_eq(info(D0), 0), num(1), ite(land(again, cmp_eq(info(D1), 0)), num(1), num(0)))
            val = ite(cmp_eq(info(D0), 0), val, num(alg.call("sp_result", (D1, I))))
        exp = ite(some, exp, num(0))
        c.equal(root + ": a value is returned exactly if the decomposition succeeded", r.out(0), exp, where=w)
        c.equal(root + ": inverse", r.out(1), val, cmp_eq(exp, 1), where=w)

    shift = V("shift")
    c.parallel([lambda a=a: dense(*a) for a in [(p + "_" + k, n, sz) for p in ("solve", "solven") for k, n, sz in (("2", 2, 8), ("3", 3, 8), ("2f", 2, 4), ("x", 2, 8))]] +
               [lambda a=a: inv(*a) for a in (("inv_2", 2, 8), ("inv_3", 3, 8), ("inv_2f", 2, 4), ("inv_x", 2, 8), ("inv_1", 1, 8), ("inv_1x", 1, 8),
                                              ("inv_blk", 2, 8, sym([[V("a%d" % (3 * (j + 1) + i + 1)) for j in range(2)] for i in range(2)])))] +
               [lambda: query("query_gn"), lambda: query("query_lm"), empty, sp_solve,
                lambda: sp_inv("vp_sp_inv", [Arr("A", 0), shift, OUT], shift), lambda: sp_inv("vp_sp_inv0", [Arr("A", 0), OUT], None),
                lambda: sp_inv("vp_sp_gn", [Arr("A", 0), Arr("b", 2), OUT], None)])


if __name__ == "__main__":
    main("C25", RULE, body, min_obl=100, assumptions=["real arithmetic", "Eigen's dense and sparse LDLT factorise, solve and report their outcome correctly"])
