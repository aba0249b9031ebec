"""Parameter dimensions, updates and casts."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from fw import *  # noqa

RULE = ("for every kind of parameter type, the dimension count equals the number of scalar components, the update adds the k-th "
        "displacement entry to the k-th component and nothing else (canonical form of every component), and casts keep every component")
# name -> (components, static?)
TYPES = {"double": (1, 1), "float": (1, 1), "v2": (2, 1), "v3": (3, 1), "r3": (3, 1), "m22": (4, 1), "m23": (6, 1), "vx": (3, 0), "mx": (6, 0),
         "m2x": (4, 0), "vec": (3, 0), "vecf": (2, 0), "vec_v2": (4, 0), "vec_m22": (8, 0), "arr": (3, 1), "arr_v2": (4, 1), "arr_vx": (3, 0),
         "arr_arr": (4, 1), "pair_dd": (2, 1), "pair_v2d": (3, 1), "pair_dv2": (3, 1), "pair_v2v3": (5, 1), "pair_vxv2": (5, 0),
         "pair_v2vx": (5, 0), "pair_vxvx": (3, 0), "pair_m22d": (5, 1), "pair_pair": (5, 1), "pair_vec": (5, 0), "arr_pair": (6, 1),
         "vec_arr": (4, 0), "vec_pair": (4, 0), "vec_vx": (7, 0), "v5": (5, 1), "v7": (7, 1), "vx6": (6, 0), "vec5": (5, 0), "arr5": (5, 1), "arr_vx3": (7, 0), "vec_v3": (12, 0), "pose": (3, 1), "pair_pose": (4, 1), "vec_pose": (6, 0), "poly": (3, 0),
         "poly2": (3, 0), "pair_poly": (5, 0)}


def body(c):
    m = compile_client(c.work, "params.cpp")
    for t, (n, static) in TYPES.items():
        x, d = arr("x", n), arr("d", n)
        r = analyse(c, m, "vp_p_" + t, [Arr("x", n), Arr("d", n), OUT])
        c.equal(t + ": DynDims", r.out(0), num(n), where=r.where())
        c.equal(t + ": dims()", r.out(1), num(n), where=r.where())
        c.equal(t + ": Dims", r.out(2), num(n if static else -1), where=r.where())
        for i in range(n):
            c.equal("%s: component %d after an update" % (t, i), r.out(3 + i), num(x[i] + d[i]), where=r.where())
        r = analyse(c, m, "vp_f_" + t, [Arr("x", n), Arr("d", n), OUT])
        for i in range(n):
            c.equal("%s: component %d after an update with -d" % (t, i), r.out(i), num(x[i] - d[i]), where=r.where())
        for k, w in (("c", "float"), ("j", "Jet")):
            if "vp_%s_%s" % (k, t) not in m.fns:
                if t in ("poly", "pair_poly"):
                    continue
            r = analyse(c, m, "vp_%s_%s" % (k, t), [Arr("x", n), OUT])
            for i in range(n):
                c.equal("%s: component %d cast to %s" % (t, i, w), r.out(i), num(x[i]), where=r.where())
    r = analyse(c, m, "vp_scalar_scalar", [V("x"), V("d"), OUT])
    c.equal("scalar displacement", r.out(0), num(V("x") + V("d")), where=r.where())


main("C20", RULE, body, min_obl=600, assumptions=["real arithmetic", "column-major parameter matrices", "containers of the enumerated sizes"])
