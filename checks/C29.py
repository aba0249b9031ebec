"""Covariance and final Hessian reported in the output are the right ones."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
import optim_oracle
from solver_oracle import *  # noqa
import eig

RULE = ("Output::Covariance of a symbolic Hessian, cost and residual count is, in canonical form and for every outcome of the decomposition, the inverse with the "
        "required factor or absent; the Hessian left by a run is the one the solver returned after the last build, present exactly when asked for, and what Levenberg-Marquardt returns carries no damping after any enumerated sequence of steps")


def inverse(S):
    n = len(S)
    cols = [solution(S, [alg.const(int(i == k)) for i in range(n)])[0] for k in range(n)]
    return [[cols[j][i] for j in range(n)] for i in range(n)]


def body(c):
    m = compile_client(c.work, "output.cpp", shards=8, opaque=eig.SPARSE_OPAQUE + optim_oracle.OPAQUE, tag="output")
    mo = compile_client(c.work, "optim.cpp", shards=8, opaque=optim_oracle.OPAQUE)
    resc = optim_oracle.boolvar("rescaled")
    seqs = ["", "g", "b", "f", "gB", "bB", "bE", "bbE", "bEbE", "bEg", "bgB"]
    msq = compile_client(c.work, "solver.cpp", shards=8, defs=["-DVP_SEQ=" + " ".join("SEQ(%s)" % q for q in seqs), "-DVP_ONLY_SEQ"])
    cost, count = V("cost"), V("count", None, True)

    def cov(root, n, rescaled):
        r = analyse(c, m, "vp_" + root, [Arr("a", n * n), cost, count] + ([] if rescaled is None else [rescaled]) + [OUT])
        w = r.where()
        S = sym([[V("a%d" % (j * n + i)) for j in range(n)] for i in range(n)])
        if n == 1:
            acc, care = T, lnot(cmp_eq(S[0][0], 0))
        else:
            c.oblige(root + ": the Hessian is decomposed once", len(r.it.decomps) == 1, w, "%d decompositions" % len(r.it.decomps))
            acc = T
            for d in r.it.decomps:
                for i in range(n):
                    for j in range(n):
                        c.equal("%s: entry (%d,%d) of the decomposed matrix is that of the Hessian" % (root, i, j), d["A"][i][j], num(S[i][j]), d["guard"], where=w)
                acc = land(acc, land(d["ok"], lor(cmp_eq(d["sign"], 0), cmp_eq(d["sign"], 2))))
            care = land(acc, positive(S))
        c.equal(root + ": a covariance is returned exactly if the Hessian could be decomposed", r.out(0), ite(acc, num(1), num(0)), where=w)
        more = land(F if rescaled is None else rescaled, cmp_lt(n, count))
        scale = ite(more, mapn(lambda k: cost * cost / (k - alg.const(n)) if isinstance(k, R) else dd.UNDEF, [N(count)], ("covscale", n)), num(1))
        I = inverse(S) if n > 1 else [[alg.const(1) / S[0][0]]]
        for j in range(n):
            for i in range(n):
                c.equal("%s: covariance (%d,%d)" % (root, i, j), r.out(1 + n * j + i), n_mul(scale, num(I[i][j])), care, where=w)

    def none():
        r = analyse(c, m, "vp_cov_none", [cost, count, resc, OUT], summaries=eig.SPARSE)
        for i, n in enumerate(("has_final_hessian", "dense covariance", "sparse covariance")):
            c.equal("no Hessian: %s is absent" % n, r.out(i), num(0), where=r.where())

    def kind():
        r = analyse(c, m, "vp_cov_kind", [Arr("a", 4), cost, count, resc, OUT], summaries=eig.SPARSE)
        c.equal("dense Hessian: present", r.out(0), num(1), where=r.where())
        c.equal("dense Hessian: no sparse covariance", r.out(1), num(0), where=r.where())

    def last(root):
        def st(it):
            it.undecided = 0
            it.cut = lambda fn, h, k: k >= (2 if it.nest == 1 else 1)
        save = optim_oracle.boolvar("save")
        r = analyse(c, m, "vp_" + root, [Arr("x", 2), save, OUT], setup=st, summaries=optim_oracle.SUMS)
        w = r.where()
        c.equal(root + ": the final Hessian is saved exactly if asked for", r.out(0), ite(save, num(1), num(0)), r.guard, where=w)
        x = [V("x0"), V("x1")]
        for i in range(4):
            c.equal("%s: entry %d of the final Hessian" % (root, i), r.out(1 + i), num(alg.call("u_h", (alg.const(i), x[0], x[1]))), land(r.guard, save), where=w)

    def undamped(q):
        names = {"g": "good", "b": "bad", "f": "failed", "B": "rebuild", "E": "keep"}
        bad = V("bad-1", "+") + 1
        r = analyse(c, msq, "vp_seq_" + q, opts(bad=bad) + [Arr("p", 2), Arr("q", 2), OUT])
        (cx, nx, _, Hx), (cy, ny, _, Hy) = user(arr("p", 2)), user(arr("q", 2))
        H = Hy if "B" in q else Hx
        care = land(land(valid(cx, nx), valid(cy, ny)), cmp_lt(V("lo", "+"), V("hi", "+")))
        for i in range(2):
            for j in range(2):
                c.equal("lm after build %s: Hessian (%d,%d) is un-damped" % (" ".join(names[x] for x in q), i, j), r.out(10 + 2 * j + i), num(H[i][j]), care, where=r.where())

    def run(root):
        save = optim_oracle.boolvar("save")
        d = optim_oracle.run_inputs(save=save, mcf=alg.const(0), mtf=alg.const(0), arg=alg.const(1))
        r = optim_oracle.run_loop(c, mo, root, d, 3, 1)
        w = r.where()
        if root.endswith("gd"):
            c.equal(root + ": no Hessian of a first-order solver", r.f["saved"], num(0), r.guard, where=w)
            return
        n = 1 if root.endswith("1") else 4
        hs = [e for e in r.it.events if e.name == "vpx_hess"]
        lastb = max(e.seq for e in r.it.events if e.name == "vpx_build")
        c.equal(root + ": the final Hessian is saved exactly if asked for", r.f["saved"], ite(save, num(1), num(0)), r.guard, where=w)
        c.oblige(root + ": the Hessian is asked for after the last build", len(hs) == n and all(e.seq > lastb for e in hs), w, "%d requests" % len(hs))
        for i in range(n):
            c.equal("%s: entry %d of the final Hessian is the solver's" % (root, i), r.f["h%d" % i], hs[i].res, land(r.guard, save), where=w)

    c.parallel([lambda: cov("cov_x", 2, resc), lambda: cov("cov_default", 2, None), lambda: cov("cov_2", 2, resc), lambda: cov("cov_3", 3, resc),
                lambda: cov("cov_1", 1, resc), none, kind] + [lambda k=k: last("last_" + k) for k in ("gn", "lm", "gnx", "lmx")] +
               [lambda k=k: run("vp_run_" + k) for k in ("1", "2", "gd")] + [lambda q=q: undamped(q) for q in seqs])


if __name__ == "__main__":
    main("C29", RULE, body, min_obl=60, assumptions=["real arithmetic", "Eigen's LDLT factorises, solves and reports its outcome correctly"])
