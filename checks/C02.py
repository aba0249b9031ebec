"""Every run performs a bounded number of iterations and solver attempts."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from optim_oracle import *  # noqa

RULE = ("termination by ranking: for each loop that builds the linear system, solved to a fixpoint with unknown outcomes, some integer of the loop state changes by "
        "the same non-zero constant on every back edge and the condition of the back edge bounds it by the required number of rounds; each round builds once")


def body(c):
    m = compile_client(c.work, "optim.cpp", opaque=OPAQUE, shards=8)
    K = names(c, m)

    def counters(rec):
        """(label, entry, head, per back edge value) of the integers the loop changes"""
        g0, mem0, phi0 = rec["entry"]
        for pid, v in rec["mu_phis"].items():
            yield "phi %d" % pid, phi0[pid], v, [(g, ph[pid]) for g, _, ph in rec["back"]]
        it = rec["it"]
        for (b, off), (sz, v) in rec["mu_cells"].items():
            t = {"k": "i", "w": 8 * sz, "sz": sz}

            def at(mem):
                return it.read_cell(mem.get(b) or interp.Obj(), b, off, t)
            yield "%s+%d" % (b, off), at(mem0), v, [(g, at(mm)) for g, mm, _ in rec["back"]]

    def ranked(rec, bound):
        """a counter that shows that the loop has at most bound rounds"""
        tried = []
        for lab, e0, head, back in counters(rec):
            back = [(g, v) for g, v in back if g is not F]
            if isinstance(head, tuple) or not back or not all(isinstance(x, R) for x in dd.leaves(head)):
                continue
            if not all(isinstance(x, (R, bool)) for x in dd.leaves(e0)):
                continue
            for step in (1, -1):
                ok = True
                for g, v in back:
                    if not all(isinstance(x, (R, bool)) or x is UNDEF for x in dd.leaves(v)):
                        ok = False
                        break
                    try:
                        if differing_case(v, n_add(head, num(step)), g, limit=2000):
                            ok = False
                            break
                    except Broken:
                        ok = False
                        break
                if not ok:
                    continue
                why = None
                for g, v in back:
                    done = n_mul(num(step), n_add(v, n_neg(e0)))       # rounds finished when the back edge is taken
                    before = n_mul(num(step), n_add(head, n_neg(e0)))
                    hyp = land(cmp_le(0, before), cmp_le(before, n_add(bound, num(-1))))   # holds at the entry, where it is 0
                    over = land(hyp, cmp_lt(n_add(bound, num(-1)), done))
                    ks = set()
                    for x in dd.leaves(n_add(n_add(before, e0), n_add(bound, done))):
                        ks |= set(x.kernels())
                    # conditions on anything else may go either way
                    gp = project(g, lambda v: v.key[0] == "sgn" and set(v.key[1].kernels()) <= ks or v.label == "check_final_cost")
                    why = why or true_case(land(gp, over), limit=10 ** 5)
                if why is not None:
                    # the exit test may come before the build: then the round is counted by its builds
                    why = None
                    before = n_mul(num(step), n_add(head, n_neg(e0)))
                    hyp = land(cmp_le(0, before), cmp_le(before, bound))     # holds at the entry and after each round
                    over = land(hyp, cmp_lt(n_add(bound, num(-1)), before))
                    ks = set()
                    for x in dd.leaves(n_add(n_add(before, e0), bound)):
                        ks |= set(x.kernels())
                    for g in [g for g, _ in back] + [e.guard for e in rec["events"] if e.name == "vpx_build"]:
                        gp = project(g, lambda v: v.key[0] == "sgn" and set(v.key[1].kernels()) <= ks or v.label == "check_final_cost")
                        why = why or true_case(land(gp, over), limit=10 ** 5)
                if why is None:
                    return lab, None
                tried.append("%s is not bounded in case [%s]" % (lab, dd.asg_str(why)))
        return None, "; ".join(tried) or "no counter changes by a constant on every back edge"

    def one(root, arg):
        d = run_inputs(arg=arg, **{k: V(k) for k in THRESH})
        d["quality"] = boolvar("quality")
        r = run_loop(c, m, root, d, None, None)
        w = r.where()
        key = root[3:] + (", default limit" if isinstance(arg, int) else ", given limit")
        n = ite(cmp_lt(d["arg"], 0), N(d["max_iters"]), N(d["arg"])) if not isinstance(arg, int) else N(d["max_iters"])
        # bounds that may be shown: the required one or a smaller one
        outer = [n_add(n, ite(d["check"], num(2), num(1))), n_add(n, num(2)), n_add(n, num(1))]
        inner = [ite(cmp_eq(d["mcf"], 0), num(256), n_add(N(d["mcf"]), num(1)))]
        inner.append(n_add(inner[0], num(-1)))
        seen = set()
        for rec in r.it.loops:
            rec["it"] = r.it
            if not any(e.name == "vpx_build" for e in rec["events"]):
                continue
            seen.add(rec["nest"])
            for bound in outer if rec["nest"] == 1 else inner:
                lab, why = ranked(rec, bound)
                if lab is not None:
                    break
            c.oblige("%s: the %s loop is bounded" % (key, "iteration" if rec["nest"] == 1 else "retry"), lab is not None, loc_str(rec["loc"]), why or "")
            if rec["nest"] == 2:
                c.oblige("%s: one build per attempt" % key, sum(1 for e in rec["events"] if e.name == "vpx_build") == 1, loc_str(rec["loc"]), "several builds per attempt")
        c.oblige("%s: iteration and retry loop found" % key, seen == {1, 2}, w, "loops that build the system: %s" % sorted(seen))
        c.oblige("%s: builds only inside the loops" % key, sum(1 for e in r.it.events if e.name == "vpx_build") ==
                 max(len([e for e in rec["events"] if e.name == "vpx_build"]) for rec in r.it.loops), w, "builds outside of the loops")
    c.parallel([lambda a=a: one(*a) for a in [(root, arg) for root in ("vp_run_1", "vp_run_2", "vp_run_gd") for arg in (-1, V("arg", None, True))]])


if __name__ == "__main__":
    main("C02", RULE, body, min_obl=20, assumptions=["the user's function and the solver calls return", "no integer overflow (limits are at most 65535)"])
