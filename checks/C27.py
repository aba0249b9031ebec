"""Unusable parameter sizes and failed allocations stop a run cleanly."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from optim_oracle import *  # noqa

RULE = ("along every path of a run or of one iteration, for every run-time size and every outcome of the allocations (exceptions followed from throw to handler): "
        "size unusable or refused => kSkipped, bad_alloc => kOutOfMemory, otherwise the system is built; no other path reaches the user's function or moves the "
        "parameters, and no exception leaves the optimizer; an optimizer used before with another number of parameters hands the user a system of the new size")
DYN = ("dyn_gd", "dyn_gn", "dyn_lm")
SPARSE = ("sp_lm", "sp_gn")
FIX = ("fix_lm", "fix_gn", "fix_gd")
ANY = ("any_lm", "any_gn", "any_gd", "any_lm2")


def scarce(it, name, dem, args, ins, mem, guard):
    """an allocation that may fail, once the run has begun"""
    v, mem, guard = eig.alloc(it, name, dem, args, ins, mem, guard)
    if not any(e.name == "vpx_begin" for e in it.events):
        return v, mem, guard
    return ite(boolvar("allocation %d fails" % it.heap), leaf(dd.Ptr("null", 0)), v), mem, guard


SIZE_SUMS = [(re.compile("^malloc$"), scarce)] + SUMS


def unwinding(c):
    return compile_client(c.work, "size.cpp", opaque=OPAQUE, keep_unwind=True, shards=8)


def run_size(c, m, root, n):
    def st(it):
        it.undecided = 0
        it.cut = rounds_cut(2)
    return analyse(c, m, root, [n, num(3), OUT], setup=st, summaries=SIZE_SUMS)


def when(r, name):
    g = F
    for e in r.it.events:
        if e.name == name:
            g = lor(g, e.guard)
    return g


def body(c):
    m = unwinding(c)
    nm = analyse(c, m, "vp_names", [OUT])
    SKIP, OOM = nm.out(0), nm.out(1)

    def one(kind, what, n, lab):
        def go():
            r = run_size(c, m, "vp_%s_%s" % (what, kind), n)
            w = r.where()
            key = "%s %s, %s" % ({"size": "run", "step": "iteration"}[what], kind, lab)
            positive = cmp_lt(0, n)
            if kind in FIX:
                usable = cmp_eq(n, 2)
            elif kind == "any_lm2":
                usable = cmp_le(0, n)
            else:
                usable = positive
            oom, refused = F, F
            for e in r.it.events:
                if e.name == "throw":
                    bad = mapn(lambda x: isinstance(x, dd.Ptr) and "bad_a" in x.base, e.args, "is_bad_alloc")
                    oom = lor(oom, land(e.guard, bad))
                    refused = lor(refused, land(e.guard, lnot(bad)))
            if kind in ANY:
                outs = {e.name: e.res for e in r.it.events if e.name in ("vpx_oom", "vpx_overflow", "vpx_mismatch")}
                if len(outs) != 3:
                    raise Broken("%s: the solver is not resized" % key)
                oom = lor(outs["vpx_oom"], outs["vpx_overflow"])
                refused = land(lnot(oom), outs["vpx_mismatch"])
            elif kind in DYN + SPARSE:
                c.oblige(key + ": an allocation can fail", true_case(land(usable, oom)) is not None or n.var is None and n.val.cval() <= 0, where=w,
                         detail="no failing allocation is raised while resizing")
                refused = F
            else:
                oom, refused = F, lnot(usable)
            build = when(r, "vpx_build")
            skip = lor(lnot(usable), refused)
            full = land(usable, oom)
            good = land(usable, land(lnot(oom), lnot(refused)))
            c.equal(key + ": the system is built exactly when size and memory allow", build, good, where=w)
            ret = lnot(build)
            c.never(key + ": skipped when the size is unusable", land(land(ret, skip), lnot(cmp_eq(r.out(0), SKIP))), where=w, what="another stop reason")
            c.never(key + ": out of memory when an allocation fails", land(land(ret, full), lnot(cmp_eq(r.out(0), OOM))), where=w, what="another stop reason")
            c.never(key + ": parameters untouched", lor(when(r, "vpx_move"), land(ret, lnot(cmp_eq(r.out(1), n)))), where=w, what="parameters moved")
            c.never(key + ": the user's function is not called", when(r, "vpx_user"), where=w, what="user function called")
            c.never(key + ": not reported as a success", land(ret, cmp_lt(0, r.out(2))), where=w, what="reported as success")
            for g, ty, _, loc in r.it.raised:
                c.never(key + ": no exception leaves", g, where=loc or w, what="exception of type %s leaves the optimizer" % ty)
            c.never(key + ": no exception leaves (any)", r.it.unreach if r.it.raised else F, where=w, what="exception leaves")
        return go

    def fit(kind, m0, n0):
        def go():
            r = analyse(c, m, "vp_fit_" + kind, [num(n0), num(m0)], summaries=SUMS)
            key = "%s with %d parameters after %s" % (kind, n0, "a run with %d" % m0 if m0 else "construction")
            ev = [e for e in r.it.events if e.name == "vpx_sizes"]
            if not ev:
                raise Broken("%s: the user's function is not reached" % key)
            c.equal(key + ": the system is built", ev[0].guard, T, where=r.where)
            for i, what in enumerate(("size of the gradient", "rows of the Hessian", "columns of the Hessian")):
                for e in ev:
                    c.equal("%s: %s" % (key, what), e.args[i], num(n0), e.guard, where=r.where)
        return go
    tasks = [fit(k, a, b) for k in ("lm", "gn", "gd", "sp_lm", "sp_gn") for a, b in ((0, 1), (0, 3), (1, 2), (3, 2), (4, 1), (2, 2))]
    n = V("n", None, True)
    for what in ("size", "step"):
        for kind in ANY + FIX + DYN:
            tasks.append(one(kind, what, n, "any size"))
        for kind in SPARSE:
            for k in (-1, 0, 1, 3):
                tasks.append(one(kind, what, num(k), "size %d" % k))
    c.parallel(tasks)


if __name__ == "__main__":
    main("C27", RULE, body, min_obl=150, assumptions=["allocations fail by returning null (Eigen then raises bad_alloc) or by raising bad_alloc",
                                                      "sparse systems: sizes -1, 0, 1, 3; all other solvers: every size"])
