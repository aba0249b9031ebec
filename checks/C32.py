"""Losses, their derivatives and distances are finite for finite arguments."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from fw import *  # noqa
import dd
import ival

RULE = ("interval analysis with IEEE infinities and NaN of the un-simplified operations: over ranges covering every argument of magnitude 0 or 1e-30..1e30 "
        "(thresholds 1e-10..1e10) no result is NaN or infinite on a whole range")
W = [(0.0, 0.0), (1e-30, 1e30), (-1e30, -1e-30)]
POS = [(0.0, 0.0), (1e-30, 1e30)]
TH = [(1e-10, 1e10)]
ONE = [(0.5, 0.5)]
DEPTH = 11


def body(c):
    dd.CFG["raw"] = True
    act, rob = compile_client(c.work, "activations.cpp", shards=4), compile_client(c.work, "robust.cpp", shards=4)
    nrm, dst = compile_client(c.work, "norms.cpp", shards=4), compile_client(c.work, "distances.cpp", shards=4)
    neg = compile_client(c.work, "self.cpp", text='#include <cmath>\nextern "C" double vp_self(double x) { return (std::exp(x) - 1) / (std::exp(x) + 1); }\n')
    r = analyse(c, neg, "vp_self", [V("x")])
    if not ival.decide(r.ret, {"x": (1.0, 1e6)}, DEPTH, {}):
        c.broken("the analysis does not find the overflow of a known example")

    def decide(m, root, args, n, **dom):
        """dom: domain of every scalar input"""
        r = analyse(c, m, "vp_" + root, args)
        w = r.where()
        outs = [r.ret] if n == 0 else [r.out(i) for i in range(n)]
        stat = {}
        for i, o in enumerate(outs):
            found = None
            what = root + (": value" if i == 0 else ": derivative %d" % i)
            for q in itertools.product(*dom.values()):
                box = dict(zip(dom, q))
                try:
                    found = ival.decide(dd.restrict(o, r.guard), box, DEPTH, stat)
                except ival.Unknown as e:
                    stat["open"] = stat.get("open", 0) + 1
                if found:
                    break
            c.oblige(what + " is finite", found is None, w, found and "%s for %s" % ("NaN" if found[1][2] == 2 else "infinite", ", ".join(
                "%s in [%g, %g]" % (k, a, b) for k, (a, b) in found[0].items())))
        for k, v in stat.items():
            c.count("ranges " + k, v)
        if stat.get("open"):
            print("  %s: %d ranges not decided" % (root, stat["open"]))

    x, a = V("x"), V("a")
    jobs = []
    for n in ("Sigmoid", "Tanh", "ReLU", "LeakyReLU"):
        d = dict(x=W, a=[(1e-3, 1.0)])
        jobs += [lambda n=n, d=d: decide(act, n + "_sv", [x, a], 0, **d), lambda n=n, d=d: decide(act, n + "_sb", [x, a, OUT], 2, **d),
                 lambda n=n: decide(act, n + "_b", [Arr("x", 3), a, OUT], 12, x0=W, x1=ONE, x2=ONE, a=[(1e-3, 1.0)])]
    n2, th2 = V("n2"), V("th2")
    for n in ("Truncated", "Huber", "Tukey", "Arctan", "Cauchy", "GemanMcClure", "BlakeZisserman"):
        d = dict(n2=POS, th2=TH)
        jobs += [lambda n=n, d=d: decide(rob, n + "_v", [n2, th2], 0, **d), lambda n=n, d=d: decide(rob, n + "_s", [n2, th2, OUT], 2, **d),
                 lambda n=n: decide(rob, n + "_j", [n2, th2, Arr("J", 3), OUT], 4, n2=POS, th2=TH, J0=ONE, J1=ONE, J2=ONE)]
    for n in ("SquaredL2", "L2", "L1", "Linf"):
        jobs += [lambda n=n: decide(nrm, n + "_b", [Arr("x", 3), OUT], 4, x0=W, x1=W, x2=W), lambda n=n: decide(nrm, n + "_sb", [x, OUT], 2, x=W)]
    v = V("v")
    for n in ("MahaSq", "Maha"):
        jobs += [lambda n=n: decide(nrm, n + "_sb", [x, v, OUT], 2, x=W, v=POS),
                 lambda n=n: decide(nrm, n + "_vb", [Arr("x", 3), Arr("v", 3), OUT], 4, x0=W, x1=W, x2=W, v0=POS[1:], v1=POS[1:], v2=ONE)]
    for n in ("Euclidean", "Manhattan", "Linf", "Cosine"):
        jobs += [lambda n=n: decide(dst, n + "_b", [Arr("a", 3), Arr("b", 3), OUT], 7, a0=W, a1=[(0.0, 0.0)], a2=[(0.0, 0.0)], b0=W, b1=W, b2=[(0.0, 0.0)])]
    c.parallel(jobs)


if __name__ == "__main__":
    main("C32", RULE, body, min_obl=150, assumptions=["libm functions are accurate to 4 ulp"])
