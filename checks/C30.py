"""A run honours its iteration and time budget and reports why it ended."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from optim_oracle import *  # noqa
from C28 import RUN

RULE = ("for symbolic iteration and time limits, the number of iterations and the stop reason of a whole run, and the condition under which it goes on, equal as "
        "decision diagrams those of the definition")


def body(c):
    m = compile_client(c.work, "optim.cpp", opaque=OPAQUE, shards=8)
    K = names(c, m)

    def one(root, rounds, tries, kw):
        W = Whole(c, m, root, rounds, tries, K, **kw)
        W.same(c, "iters", "stop")
        if kw.get("timed"):
            c.oblige(W.key + ": a time-out occurs", true_case(land(W.care, cmp_eq(W.r.f["stop"], K["TimedOut"])), limit=10 ** 6) is not None, W.w, "never times out")

    def clock(root):
        """the time that passes during each build counts, once and in milliseconds, in the duration after it"""
        W = Whole(c, m, root, 3, 1, K, mcf=0, mtf=0, timed=True, arg=1, max_ms=V("max_ms"))
        reads = {}
        for e in W.r.it.events:
            if e.dem.endswith("::now") and isinstance(val(e.res), R):
                reads[kernel_of(val(e.res))] = e
        c.oblige(root + ": the clock is read", len(reads) >= 2, W.w, "no clock reading")
        for j, t in enumerate(W.durations(c)):
            lin = linear(t)
            for i in range(j + 1):
                w = alg.const(0)
                for k, e in reads.items():
                    if e.seq > W.rounds[i][0]["seq"]:
                        w = w + alg.diff(lin, alg.var(k.name))
                c.oblige("%s: the time of iteration %d counts once in the duration after iteration %d" % (root, i + 1, j + 1), abs(dd_float(w) * 1e6 - 1) < 1e-3,
                         W.w, "counts %s ms per ns in %s" % (w, t))

    def dd_float(w):
        return float(Fraction(w.num.get((), 0)) / Fraction(w.den[()])) if set(w.num) <= {()} and set(w.den) == {()} else 0.0

    def linear(t):
        """integer divisions (rounding to whole microseconds) taken as exact ones"""
        m = {}
        for k in t.kernels():
            K = alg.KERNELS[k]
            if K.name == "sdiv":
                m[K] = K.args[0] / K.args[1]
        return alg.subst(t, m)

    def given(name):
        """an explicit number of iterations reaches the run, however the derivatives are obtained"""
        got = []

        def run(it, fname, dem, args, ins, mem, guard):
            _, mem2, _ = it.run_fn(it.m.fns["vp_mark"], [args[0], num(1)], mem, T)
            got.append((guard, args[4], ins.get("loc")))
            return None, mem2, guard
        k = V("k", None, True)

        def st(it):
            it.undecided = 0
        r = analyse(c, md, "vp_lim_" + name, [k, Arr("p", 4)], setup=st, summaries=[(re.compile(RUN), run)] + SUMS)
        once = [F, F]
        for g, n, loc in got:
            c.equal("%s: a given number of iterations is the one of the run" % name, n, num(k), land(g, cmp_le(0, k)), where=loc or r.where())
            once = [lor(once[0], g), lor(once[1], land(once[0], g))]
        c.oblige("%s: both ways of calling run" % name, len(got) >= 2 and once[1] is T, where=r.where(), detail="%d runs" % len(got))

    md = compile_client(c.work, "dispatch.cpp", opaque=OPAQUE + (RUN,), keep_unwind=True)
    tasks = []
    for root in ("vp_run_1", "vp_run_2", "vp_run_gd"):
        tasks.append((root, 3, 1, dict(mcf=0, mtf=0, arg=-1)))
        tasks.append((root, 3, 1, dict(mcf=0, mtf=0, arg=V("arg", None, True))))
        for a in range(4 if not c.thorough else 5):
            tasks.append((root, a + 2, 1, dict(mcf=0, mtf=0, arg=a)))
        tasks.append((root, 3, 1, dict(mcf=0, mtf=0, arg=1, max_ms=V("max_ms"), timed=True)))
        tasks.append((root, 2, 1, dict(mcf=V("mcf", "0+", True), mtf=V("mtf", "0+", True), arg=1, check=F, max_ms=V("max_ms"), timed=True,
                                       **{k: V(k) for k in ("min_error", "min_step")})))
    c.parallel([lambda t=t: one(*t) for t in tasks] + [lambda r=r: clock(r) for r in ("vp_run_1", "vp_run_gd")] +
               [lambda n=n: given(n) for n in ("lm_ad", "gn_ad1", "gd_ad", "lm_nd", "gd_nd", "lm_acc", "gd_acc")])


if __name__ == "__main__":
    main("C30", RULE, body, min_obl=60, assumptions=["the solver is reduced to its outcomes", "runs of up to 5 (thorough: 6) iterations are unrolled"])
