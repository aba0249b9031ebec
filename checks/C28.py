"""The requested solver is the one that runs."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from optim_oracle import *  # noqa

RULE = ("for every value of the solver type and every kind of user function, the condition under which an optimizer is run, which algorithm it is instantiated with, "
        "the parameters and options it is given, its returned output, and the exceptions raised are those of the dispatch table")
RUN = r"^tinyopt::Optimizer_<.*>::OptimizeAcc"
NOPT = 11
ALGO = {"lm": "SolverLM", "gn": "SolverGN", "gd": "SolverGD"}
# instance -> (algorithms that run, Hessian, Gradient)
D2, DX, D1 = "double, 2, 2", "double, -1, -1", "double, 1, 1"
G2, GX, G1 = "double, 2, 1", "double, -1, 1", "double, 1, 1"
TABLE = {"ad_scalar": ("lm gn gd", D1, G1), "ad_vec2": ("lm gn gd", D2, G2), "ad_vecx": ("lm gn gd", DX, GX), "ad_vec2_res2": ("lm gn", D2, None),
         "nd_scalar": ("lm gn gd", D1, G1), "acc_auto2": ("lm gn", D2, None), "acc_vec2": ("lm gn", D2, None), "acc_mat2": ("lm gn", D2, None),
         "acc_vecx": ("lm gn", DX, None), "acc_sparse": ("lm gn", "SparseMatrix", None), "grad_vec2": ("gd", None, G2), "grad_vecx": ("gd", None, GX),
         "grad_auto": ("gd", None, G2)}


def reachable(mem, base):
    """values held by an object and by everything its pointers lead to"""
    todo, seen, vals = [base], set(), []
    while todo:
        b = todo.pop()
        if b in seen or b not in mem:
            continue
        seen.add(b)
        for off, (sz, v) in mem[b].cells.items():
            if isinstance(v, dd.Node):
                vals.append(v)
                todo += [x.base for x in dd.leaves(v) if isinstance(x, dd.Ptr)]
    return vals


def body(c):
    m = compile_client(c.work, "dispatch.cpp", opaque=OPAQUE + (RUN,), keep_unwind=True)
    ty = analyse(c, m, "vp_types", [OUT])
    TYPES = {k: ty.out(i) for i, k in enumerate(("lm", "gn", "gd"))}
    al = analyse(c, m, "vp_alias", [OUT])
    for i, n in enumerate(("lm::Optimizer", "gn::Optimizer", "gd::Optimizer", "lm::Solver", "gn::Solver", "gd::Solver", "lm::SparseSolver", "gn::SparseSolver")):
        c.equal("%s names its algorithm" % n, al.out(i), num(1), where=al.where())

    def one(name):
        def go():
            runs = []

            def run(it, fname, dem, args, ins, mem, guard):
                rid = len(runs) + 1
                if len(args) < 4:
                    raise Broken("call of %s not understood" % dem)
                _, mem2, _ = it.run_fn(it.m.fns["vp_mark"], [args[0], num(rid)], mem, T)
                runs.append({"id": rid, "guard": guard, "dem": dem, "this": args[1], "x": args[2], "iters": args[4], "mem": mem, "loc": ins.get("loc")})
                return None, mem2, guard

            def st(it):
                it.undecided = 0
            typ = V("type", None, True)
            root = "vp_disp_" + name
            r = analyse(c, m, root, [typ, Arr("p", 4), OUT], setup=st, summaries=[(re.compile(RUN), run)] + SUMS)
            w = r.where()
            algos, H, G = TABLE[name]
            algos = algos.split()
            caller = [e for e in r.it.events if e.name == "vpx_caller"]
            if len(caller) != 1:
                raise Broken("%s: call of Optimize not found" % name)
            known, limit = F, num(alg.call("u_iters", (alg.const(0),), "0+", True))
            for a, cls in ALGO.items():
                want = cmp_eq(typ, TYPES[a]) if a in algos else F
                known = lor(known, want)
                mine = [x for x in runs if re.search(r"\b%s<" % cls, x["dem"])]
                got = F
                for x in mine:
                    c.never("%s, %s: run once" % (name, a), land(got, x["guard"]), where=x["loc"] or w, what="second run")
                    got = lor(got, x["guard"])
                    t = H if a != "gd" else G
                    c.oblige("%s, %s: kind of system" % (name, a), t is None or t in x["dem"], where=x["loc"] or w, detail="instantiated as " + x["dem"])
                    c.never("%s, %s: on the caller's parameters" % (name, a), land(x["guard"], lnot(same_ptr(x["x"], caller[0].args[0]))),
                            where=x["loc"] or w, what="other parameters")
                    c.never("%s, %s: iteration limit left to the options" % (name, a), land(x["guard"], land(cmp_le(0, x["iters"]), lnot(cmp_eq(x["iters"], limit)))),
                            where=x["loc"] or w, what="another iteration limit given")
                    base = [p.base for p in dd.leaves(x["this"]) if isinstance(p, dd.Ptr)]
                    vals = [v for b in base for v in reachable(x["mem"], b)]
                    for k in range(NOPT):
                        opt = num(alg.call("u_opt", (alg.const(k),)))
                        c.oblige("%s, %s: option %d reaches the optimizer" % (name, a, k), any(ite(x["guard"], v, num(0)) is ite(x["guard"], opt, num(0)) for v in vals),
                                 where=x["loc"] or w, detail="the value set by the caller is not part of the optimizer")
                    for i, f in enumerate(("num_iters", "stop_reason", "final_rerr_dec", "num_failures")):
                        c.never("%s, %s: %s is that of the run" % (name, a, f), land(x["guard"], lnot(cmp_eq(r.out(i), x["id"]))), where=x["loc"] or w, what="other output")
                    c.never("%s, %s: num_diff_used says how the derivatives were obtained" % (name, a), land(x["guard"], lnot(cmp_eq(r.out(4), int(name.startswith("nd_"))))),
                            where=x["loc"] or w, what="other value")
                c.equal("%s: runs %s exactly when asked to" % (name, a), got, want, where=w)
            other = [x for x in runs if not any(re.search(r"\b%s<" % cls, x["dem"]) for cls in ALGO.values())]
            c.oblige("%s: only known algorithms" % name, not other, where=w, detail=", ".join(x["dem"] for x in other))
            thrown = F
            for g, t, _, loc in r.it.raised:
                thrown = lor(thrown, g)
                c.never("%s: exceptions are invalid_argument" % name, land(g, lnot(mapn(lambda x: isinstance(x, dd.Ptr) and "invalid_argument" in x.base, [t], "is_ia"))),
                        where=loc or w, what="exception of another type")
            c.equal("%s: throws exactly when nothing can be run" % name, thrown, lnot(known), where=w)
        return go
    c.parallel([one(n) for n in TABLE])


def same_ptr(a, b):
    return mapn(lambda x, y: isinstance(x, dd.Ptr) and x == y, [a, b], "same_ptr")


if __name__ == "__main__":
    main("C28", RULE, body, min_obl=150, assumptions=["user functions: residuals (automatic and numerical differentiation), accumulators with dense and sparse Hessian, "
                                                      "gradient-only functions; scalar, fixed and dynamic parameters"])
