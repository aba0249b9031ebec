"""Levenberg-Marquardt damping follows its options."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from solver_oracle import *  # noqa

RULE = ("after every enumerated sequence of builds, kept systems and good/bad/failed steps, the solved matrix is in canonical form the user's Hessian "
        "with its diagonal multiplied by 1+lambda once, lambda following the configured factors and range, and Hessian() is the user's matrix")

# B: rebuild at the new point, E: keep the system and evaluate only, g/b/f: good, bad, failed step, r: reset, q: good step with a quality estimate
SEQS = ["", "g", "b", "gB", "bB", "fB", "ggB", "bbB", "bgB", "gbB", "bbbB", "bbgB", "bgbB", "bbggB", "bE", "fE", "bbE", "bEbE", "bBbE", "bEB", "bEgB", "fffB", "fgB", "rB",
        "bbrB", "brbB", "bErB", "qB", "bqB", "bbqB", "qE"]
# the same for run-time sized and sparse systems
DYN = ["", "gB", "bB", "bE", "bEbE", "bEB", "bbgB", "rB"]
EXTRA = ["bbbbB", "bgbgB", "bbgbB", "gggB", "bEbEbE", "bEbEgB", "fEfE", "bBbEbE", "ffgB", "bbbgB", "rbB", "bErbE"]


def body(c):
    seqs = SEQS + (EXTRA if c.thorough else [])
    roots = [("SEQ", q) for q in seqs] + [(k, q) for k in ("SEQD", "SEQS") for q in (seqs if c.thorough else DYN)]
    m = compile_client(c.work, "solver.cpp", shards=8, defs=["-DVP_SEQ=" + " ".join("%s(%s)" % r for r in roots), "-DVP_ONLY_SEQ"])
    damp, lo, hi, good = (V(n, "+") for n in ("damp", "lo", "hi", "good"))
    bad = V("bad-1", "+") + 1
    cx, nx, gx, Hx = user(arr("p", 2))
    cy, ny, gy, Hy = user(arr("q", 2))

    def clamp(l):
        def f(v):
            return ite(cmp_lt(v, lo), num(lo), ite(cmp_lt(hi, v), num(hi), num(v)))
        return mapn(f, [l], "clamp")

    def quality(s):
        """factor of a good step with quality estimate: max(s, 1-(2q-1)^3)"""
        qual = alg.call("u_q", ())
        t = 2 * qual - 1
        t = 1 - t * t * t
        return ite(cmp_eq(qual, 0), num(s), ite(cmp_lt(s, t), num(t), num(s)))

    def check(kind, q, off):
        r = analyse(c, m, {"SEQ": "vp_seq_", "SEQD": "vp_seqx_", "SEQS": "vp_seqs_"}[kind] + q, opts(damp=0 if off else damp, bad=bad) + [Arr("p", 2), Arr("q", 2), OUT])
        w = r.where()
        key = "%s%s%s" % ({"SEQ": "", "SEQD": "run-time size, ", "SEQS": "sparse, "}[kind], "build " + " ".join({"g": "good", "b": "bad", "f": "failed", "B": "rebuild", "E": "keep", "r": "reset", "q": "good with quality"}[x] for x in q), ", damping disabled" if off else "")
        lam = applied = num(0 if off else damp)
        bf, bads = bad, 0
        cost, cnt, g, H, dirty = cx, nx, gx, Hx, False
        for x in q:
            if x in "bf":
                lam = lam if off else clamp(n_mul(lam, bf))
                bf, bads = bf * bad, bads + 1
            elif x in "gq":
                s = quality(good) if x == "q" else num(good)
                if bads:
                    s = mapn(lambda v, bf=bf: v / bf, [s], "div by %s" % bf)
                lam = lam if off else clamp(n_mul(lam, s))
                bf, bads = bad, 0
            elif x == "r":
                lam = num(0 if off else damp)
                bf, bads = bad, 0
            else:
                cost, cnt = cy, ny
                if x == "B":
                    g, H = gy, Hy
                applied = lam
        care = land(land(valid(cx, nx), valid(cy, ny)), cmp_lt(lo, hi))
        c.equal(key + ": build succeeds", r.out(0), num(1), care, where=w)
        c.equal(key + ": user function called once by the last build", r.out(1), num(1), care, where=w)
        c.equal(key + ": cost", r.out(2), num(cost), care, where=w)
        for i in range(2):
            c.equal(key + ": gradient %d" % i, r.out(4 + i), num(g[i]), care, where=w)
            for j in range(2):
                e = n_mul(H[i][j], n_add(applied, 1)) if i == j else num(H[i][j])
                c.equal(key + ": damped Hessian (%d,%d)" % (i, j), r.out(6 + 2 * j + i), e, care, where=w)
                c.equal(key + ": un-damped Hessian (%d,%d)" % (i, j), r.out(10 + 2 * j + i), num(H[i][j]), care, where=w)

    tasks = []
    for kind, q in roots:
        if "r" in q and "B" not in q[q.rindex("r"):]:
            continue
        tasks.append(lambda kind=kind, q=q: check(kind, q, False))
        if q in ("gB", "bB", "bE", "bbB", "fB", "bgB"):
            tasks.append(lambda kind=kind, q=q: check(kind, q, True))
    c.parallel(tasks)


if __name__ == "__main__":
    main("C09", RULE, body, min_obl=300, assumptions=["real arithmetic", "0 < range minimum < range maximum, bad factor > 1", 
                                                     "sequences of up to %d events" % max(len(q) for q in SEQS)])
