"""Logging never changes results and disabled logging is silent."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from optim_oracle import *  # noqa
from C27 import SIZE_SUMS
from C28 import RUN, TABLE
import solver_oracle

RULE = ("with every logging option an unknown: the condition of every call that emits text implies log.enable, and every result, every call with an effect and its "
        "arguments have equal cofactors for both values of each logging option (decision diagrams over all other conditions)")
STREAMS = ("g:_ZSt4cout", "g:_ZSt4cerr", "g:_ZSt4clog", "g:stdout", "g:stderr")
PRINT = ("vpx_log", "printf", "puts", "putchar", "fprintf", "fputs", "fputc", "fwrite", "write", "vprintf")
TEXT = ("vpx_log", "vpx_format")


def logvar(v):
    return "u_log(" in v.label


def fixed(v, i):
    return dd.mk(v, [T if k == i else F for k in range(len(v.dom))])


def emits(e):
    if e.name in PRINT:
        return True
    return any(isinstance(p, dd.Ptr) and p.base in STREAMS for a in e.args if isinstance(a, dd.Node) for p in dd.leaves(a))


class Neutral:
    def __init__(self, c, key, r, care=T):
        self.c, self.key, self.r, self.care = c, key, r, care
        self.w = r.where()

    def same(self, what, n):
        """n does not depend on any logging option"""
        if not isinstance(n, dd.Node):
            return
        vs = [v for v in dd.support(n) if logvar(v)]
        key = "%s: %s" % (self.key, what)
        if not vs:
            self.c.oblige(key, True, where=self.w)
        for v in vs:
            # a run in which the text formatting was not followed to its end is compared with none
            a, ca = [dd.restrict(x, fixed(v, 0)) for x in (n, self.care)]
            for i in range(1, len(v.dom)):
                b, cb = [dd.restrict(x, fixed(v, i)) for x in (n, self.care)]
                self.c.equal("%s [%s]" % (key, v.label), b, a, land(ca, cb), where=self.w)

    def events(self):
        logs = 0
        for e in self.r.it.events:
            if emits(e):
                logs += 1
                off = land(land(self.care, e.guard), cmp_eq(num(alg.call("u_log", (alg.const(0),), "0+", True)), 0))
                self.c.never("%s: silent when logging is disabled" % self.key, off, where=e.loc or self.w, what="text is emitted")
            if e.name.startswith("vpx_") and e.name not in TEXT:
                self.same("condition of %s" % e.name, e.guard)
                for i, a in enumerate(e.args):
                    if isinstance(a, dd.Node):
                        self.same("argument %d of %s" % (i, e.name), ite(e.guard, a, F))
        return logs

    def thrown(self):
        for g, t, _, _ in self.r.it.raised:
            self.same("condition of an exception", g)


def body(c):
    LOG = ["-DVP_LOG"]
    specs = [dict(src="optim.cpp", opaque=OPAQUE, defs=LOG, shards=8, tag="optim"), dict(src="solver.cpp", defs=LOG, shards=8, opaque=eig.SPARSE_OPAQUE, tag="solver"),
             dict(src="size.cpp", opaque=OPAQUE, defs=LOG, keep_unwind=True, shards=8, tag="size"),
             dict(src="dispatch.cpp", opaque=OPAQUE + (RUN,), defs=LOG, keep_unwind=True, tag="dispatch"),
             dict(src="autodiff.cpp", defs=LOG, shards=8, tag="autodiff")]
    mo, ms, mz, md, ma = compile_many(c.work, specs)
    tasks = []

    def step(root, nan):
        def go():
            d = inputs()
            r = run_step(c, mo, root, d, cut=rounds_cut(2), nan=nan)
            n = Neutral(c, "iteration %s%s" % (root, ", NaN tracked" if nan else ""), r, lnot(r.it.cut_guard))
            for f in FIELDS:
                if f in r.f:
                    n.same(LABEL.get(f, f), r.f[f])
            anchor(n.events(), n)
        return go

    def anchor(logs, n):
        c.oblige(n.key + ": the log statements are seen", logs > 0, where=n.w, detail="no log statement found")

    def run(root):
        def go():
            d = run_inputs(mcf=num(3), mtf=num(0), arg=num(-1))
            r = run_loop(c, mo, root, d, 2, 1)
            n = Neutral(c, "run " + root, r, lnot(r.it.cut_guard))
            for f in RFIELDS:
                n.same(LABEL.get(f, f), r.f[f])
            anchor(n.events(), n)
        return go

    def solver(root):
        def go():
            r = analyse(c, ms, root, solver_oracle.opts(ldlt=boolvar("ldlt"), mindiag=V("mindiag", "+")) + [Arr("x", 2), Arr("y", 2), OUT], summaries=eig.SPARSE + [(re.compile(r"^Eigen::SparseMatrix<.*::setZero$"), eig.sp_drop)])
            n = Neutral(c, "solver " + root[3:], r)
            for i in range(24):
                n.same("result %d" % i, r.out(i))
            n.events()
        return go

    def size(root):
        def go():
            def st(it):
                it.undecided = 0
                it.cut = rounds_cut(2)
            r = analyse(c, mz, root, [V("n", None, True), num(3), OUT], setup=st, summaries=SIZE_SUMS)
            n = Neutral(c, root[3:], r)
            for i in range(4):
                n.same("result %d" % i, r.out(i))
            anchor(n.events(), n)
            n.thrown()
        return go

    def disp(name):
        def go():
            def st(it):
                it.undecided = 0

            def run(it, fname, dem, args, ins, mem, guard):
                _, mem2, _ = it.run_fn(it.m.fns["vp_mark"], [args[0], num(1)], mem, T)
                return None, mem2, guard
            r = analyse(c, md, "vp_disp_" + name, [V("type", None, True), Arr("p", 4), OUT], setup=st, summaries=[(re.compile(RUN), run)] + SUMS)
            n = Neutral(c, "Optimize " + name, r)
            for i in range(4):
                n.same("result %d" % i, r.out(i))
            n.events()
            n.thrown()
        return go

    def auto(root):
        def go():
            r = analyse(c, ma, root, ([V("x"), V("y")] if root in ("vp_os", "vp_os2") else [Arr("p", 2), Arr("q", 2)]) + [OUT])
            n = Neutral(c, "automatic differentiation " + root[3:], r)
            for i in range(28):
                n.same("result %d" % i, r.out(i))
            n.events()
        return go
    for root in ROOTS:
        tasks += [step(root, False), step(root, True), run(root.replace("step", "run"))]
    tasks += [solver("vp_" + n) for n in ("gn_2", "gn_x", "gn_1", "lm_2", "lm_x", "lm_1", "gd_2", "gd_x", "ctor_gn", "ctor_lm")]
    tasks += [size("vp_%s_%s" % (a, b)) for a in ("size", "step") for b in ("any_lm", "any_gn", "any_gd", "fix_lm", "fix_gn", "fix_gd", "dyn_lm", "dyn_gn", "dyn_gd")]
    tasks += [disp(n) for n in TABLE]
    tasks += [auto("vp_" + n) for n in ("o_v2_f2", "o_v2_f1", "ox_vx_f2", "o_vec_f2", "o_pose_f2", "o_poly_f2", "o_v2_fm", "os", "os2")]
    c.parallel(tasks)


if __name__ == "__main__":
    main("C24", RULE, body, min_obl=300, assumptions=["at most 2 attempts per iteration and 2 iterations per run are unrolled",
                                                      "diff::Eval, which has no options, and the gradient checkers, which have a verbose flag, are not covered"])
