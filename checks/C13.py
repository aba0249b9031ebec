"""Jet operations carry the exact derivative of their value."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from fw import *  # noqa

RULE = ("for every Jet operator and function the canonical form of the value part equals the plain function of the operands' value "
        "parts, and every derivative component equals the chain rule applied to the symbolic derivative of that function")
OPAQUE = [r"^std::(lerp|midpoint|hypot|cyl_bessel_j)(<.*>)?$", r"^std::(__detail::)?__(hypot3|cyl_bessel_j|lerp|midpoint)(<.*>)?$"]


def contract(f, n=None):
    def g(it, name, dem, args, ins, mem, guard):
        if n is not None and len(args) != n:
            return None
        return mapn(lambda *a: f(*a) if all(isinstance(x, R) for x in a) else UNDEF, args, ("lib", dem)), mem, guard
    return g


LIB = [(re.compile(r"lerp"), contract(lambda a, b, t: a + t * (b - a))),
       (re.compile(r"midpoint"), contract(lambda a, b: (a + b) / 2)),
       (re.compile(r"std::(__)?hypot3?\b"), contract(lambda a, b, c: alg.sqrt(a * a + b * b + c * c), 3)),
       (re.compile(r"cyl_bessel_j"), contract(lambda n, x: alg.call("jn", (n, x))))]
f, g, h = (arr(n, 3) for n in "fgh")
s = V("s")
pos = lambda x: cmp_lt(0, x)  # noqa: E731
neg = lambda x: cmp_lt(x, 0)  # noqa: E731
nz = lambda x: lnot(cmp_eq(x, 0))  # noqa: E731
M = alg.MATH
a, b, t3 = f[0], g[0], h[0]


def sgn1(x):
    return ite(cmp_lt(x, 0), num(-1), num(1))


UN = {"plus": a, "minus": -a, "abs": (n_abs(a), nz(a)), "log": (alg.log(a), pos(a)), "log10": (M["log10"](a), pos(a)),
      "log1p": (alg.log(1 + a), pos(1 + a)), "exp": alg.exp(a), "expm1": alg.exp(a) - 1, "sqrt": (alg.sqrt(a), pos(a)),
      "cos": alg.cos(a), "acos": M["acos"](a), "sin": alg.sin(a), "asin": M["asin"](a), "tan": alg.tan(a), "atan": M["atan"](a),
      "sinh": alg.sinh(a), "cosh": alg.cosh(a), "tanh": alg.tanh(a), "cbrt": (alg.cbrt(a), nz(a)), "exp2": M["exp2"](a),
      "log2": (M["log2"](a), pos(a)), "erf": M["erf"](a), "erfc": 1 - M["erf"](a), "norm": a * a,
      "floor": M["floor"](a), "ceil": M["ceil"](a), "bessel0": alg.call("jn", (alg.const(0), a)),
      "bessel1": alg.call("jn", (alg.const(1), a)), "bessel3": alg.call("jn", (alg.const(3), a)),
      "selfmul": a * a, "selfdiv": (alg.const(1), nz(a))}
SC = {"addr": a + s, "addl": s + a, "subr": a - s, "subl": s - a, "mulr": a * s, "mull": s * a, "divr": (a / s, nz(s)),
      "divl": (s / a, nz(a)), "powr": (alg.powr(a, s), pos(a)), "powl": (alg.powr(s, a), pos(s)),
      "adda": a + s, "suba": a - s, "mula": a * s, "diva": (a / s, nz(s))}
BI = {"add": a + b, "sub": a - b, "mul": a * b, "div": (a / b, nz(b)), "atan2": (M["atan2"](a, b), nz(a * a + b * b)),
      "copysign": (n_mul(n_abs(a), sgn1(b)), land(nz(a), nz(b))), "pow": (alg.powr(a, b), pos(a)),
      "hypot": (alg.sqrt(a * a + b * b), nz(a * a + b * b)), "fdim": (ite(cmp_lt(b, a), num(a - b), num(0)), nz(a - b)),
      "fmax": (ite(cmp_lt(b, a), num(a), num(b)), nz(a - b)), "fmin": (ite(cmp_lt(a, b), num(a), num(b)), nz(a - b)),
      "midpoint": (a + b) / 2, "adda": a + b, "suba": a - b, "mula": a * b, "diva": (a / b, nz(b))}
TRI = {"hypot3": (alg.sqrt(a * a + b * b + t3 * t3), nz(a * a + b * b + t3 * t3)), "fma": a * b + t3, "lerp": a + t3 * (b - a)}


def body(c):
    m = compile_client(c.work, "jet.cpp", opaque=OPAQUE)

    def verify(key, r, e, ops, dynamic=False):
        care = T
        if isinstance(e, tuple):
            e, care = e
        e = N(e)
        c.equal(key + ": value", r.out(0), e, care, where=r.where())
        for i in (1, 2):
            d = num(0)
            for v in ops:
                d = n_add(d, n_mul(n_diff(e, v[0]), v[i]))
            c.equal("%s: derivative %d" % (key, i), r.out(i), d, care, where=r.where())
        if dynamic:
            c.equal(key + ": derivative size", r.out(3), num(1), care, where=r.where())

    def A(root, *args):
        return analyse(c, m, root, list(args) + [OUT], summaries=LIB)
    X = {"f": Arr("f", 3), "g": Arr("g", 3), "h": Arr("h", 3)}
    have = set(m.fns)

    def has(root, opt=()):
        if root in have:
            return True
        if root.split("_", 2)[-1] in opt:
            return False
        raise Broken("root %s vanished" % root)
    opt = ("bessel0", "bessel1", "bessel3", "midpoint", "lerp")
    for n, e in UN.items():
        if has("vp_u_" + n, opt):
            verify(n, A("vp_u_" + n, X["f"]), e, [f])
        if n not in ("floor", "ceil", "selfmul", "selfdiv") + opt:
            verify(n + " (dynamic)", A("vp_ux_" + n, X["f"]), e, [f], True)
    for n, e in SC.items():
        verify(n, A("vp_s_" + n, X["f"], s), e, [f])
        verify(n + " (dynamic)", A("vp_sx_" + n, X["f"], s), e, [f], True)
    for n, e in BI.items():
        if not has("vp_b_" + n, opt):
            continue
        verify(n, A("vp_b_" + n, X["f"], X["g"]), e, [f, g])
        verify(n + " (dynamic)", A("vp_bx_" + n, X["f"], X["g"]), e, [f, g], True)
        if n not in ("adda", "suba", "mula", "diva"):
            verify(n + " (constant left)", A("vp_bl_" + n, X["f"], X["g"]), e, [g], True)
            verify(n + " (constant right)", A("vp_br_" + n, X["f"], X["g"]), e, [f], True)
    for n, e in TRI.items():
        if has("vp_t_" + n, opt):
            for k, ops in (("", [f, g, h]), ("x", [f, g, h]), ("a", [f]), ("b", [g]), ("c", [h])):
                verify(n + {"": "", "x": " (dynamic)"}.get(k, " (constant operands)"), A("vp_t%s_%s" % (k, n), X["f"], X["g"], X["h"]), e, ops, k != "")
    # negative base and integer exponent: no derivative with respect to the exponent
    for k in ("s", "sx"):
        r = A("vp_%s_powl" % k, X["f"], s)
        care = land(cmp_lt(s, 0), cmp_eq(a, M["floor"](a)))
        c.equal("powl: value for a negative base (%s)" % k, r.out(0), num(alg.powr(s, a)), care, where=r.where())
        for i in (1, 2):
            c.equal("powl: derivative %d for a negative base (%s)" % (i, k), r.out(i), ite(cmp_eq(f[i], 0), num(0), leaf(dd.NAN)), care, where=r.where())
    # equal operands: fmax and fmin fall back to the midpoint
    for n in ("fmax", "fmin"):
        for k, ops in (("b", [f, g]), ("bx", [f, g]), ("bl", [g]), ("br", [f])):
            r = A("vp_%s_%s" % (k, n), X["f"], X["g"])
            for i in (1, 2):
                c.equal("%s: derivative %d of equal operands (%s)" % (n, i, k), r.out(i), num(sum((o[i] for o in ops), alg.const(0)) / 2), cmp_eq(a, b), where=r.where())
    # 0^g and 1-valued exponents of zero bases
    r = A("vp_b_pow", X["f"], X["g"])
    z = cmp_eq(a, 0)
    c.equal("pow: value at zero base", r.out(0), num(0), land(z, cmp_lt(1, b)), where=r.where())
    for i in (1, 2):
        c.equal("pow: derivative %d at zero base" % i, r.out(i), num(0), land(z, cmp_lt(1, b)), where=r.where())
        c.equal("pow: derivative %d at zero base, exponent one" % i, r.out(i), num(f[i]), land(z, cmp_eq(b, 1)), where=r.where())
    r = A("vp_cmp", X["f"], X["g"], s)
    k = 0
    rel = [cmp_lt, cmp_le, lambda x, y: cmp_lt(y, x), lambda x, y: cmp_le(y, x), cmp_eq, lambda x, y: lnot(cmp_eq(x, y))]
    for nm, q in zip(("<", "<=", ">", ">=", "==", "!="), rel):
        for w, (x, y) in (("jets", (a, b)), ("jet and scalar", (a, s)), ("scalar and jet", (s, a))):
            c.equal("compare %s of %s" % (nm, w), r.out(k), ite(q(x, y), num(1), num(0)), where=r.where())
            k += 1
    r = A("vp_isx", X["f"], X["g"])
    for k, (nm, q) in enumerate((("isless", rel[0]), ("islessequal", rel[1]), ("isgreater", rel[2]), ("isgreaterequal", rel[3]), ("islessgreater", rel[5]))):
        c.equal(nm, r.out(k), ite(q(a, b), num(1), num(0)), where=r.where())
    for root, args, ex in (("vp_ctor0", [], (0, 0, 0)), ("vp_ctor1", [a], (a, 0, 0)), ("vp_ctork0", [a], (a, 1, 0)), ("vp_ctork1", [a], (a, 0, 1))):
        r = A(root, *args)
        for i in range(3):
            c.equal("%s: %d" % (root[3:], i), r.out(i), num(ex[i]), where=r.where())
    p = arr("p", 6)
    r = A("vp_f_expr", Arr("p", 6, sz=4))
    e = alg.sin(p[0]) * p[3] / (alg.exp(p[3]) + 2) - alg.sqrt(p[0])
    c.equal("float expression: value", r.out(0, 4), num(e), pos(p[0]), where=r.where())
    for i in (1, 2):
        c.equal("float expression: derivative %d" % i, r.out(i, 4), num(alg.diff(e, p[0]) * p[i] + alg.diff(e, p[3]) * p[3 + i]), pos(p[0]), where=r.where())


main("C13", RULE, body, min_obl=380, assumptions=["real arithmetic", "libm and libstdc++ math functions by contract",
                                                 "derivatives at points where the function is not differentiable are outside"])
