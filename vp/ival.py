"""Interval analysis of un-simplified expressions (dd.CFG["raw"]) with IEEE infinities and NaN.

A value is (lo, hi, nan): every non-NaN result lies in [lo, hi] (infinities included), nan is 0 (never), 1 (possibly) or 2
(always).  Bounds are rounded outwards, so 'never NaN and finite' and 'always NaN or infinite' both hold for every argument
of the box the expression is evaluated on."""
import math
import alg
import dd

INF = math.inf
NANV = (INF, -INF, 2)
ALL = (-INF, INF, 1)
ULPS = 4  # libm functions


class Unknown(Exception):
    pass


def dn(x, n=1):
    for _ in range(n):
        x = math.nextafter(x, -INF) if x != INF else x
    return x


def up(x, n=1):
    for _ in range(n):
        x = math.nextafter(x, INF) if x != -INF else x
    return x


def mk(lo, hi, nan=0):
    return (lo, hi, nan)


def point(c):
    try:
        v = float(c)
    except OverflowError:
        v = INF if c > 0 else -INF
    return (v, v, 0) if v == c else (dn(v), up(v), 0)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    n = 2 if a[2] == b[2] == 2 else (1 if a[2] or b[2] else 0)
    return (min(a[0], b[0]), max(a[1], b[1]), n)


def neg(a):
    return a if a[2] == 2 else (-a[1], -a[0], a[2])


def exact(v, *ops):
    return v == 0 or math.isinf(v)


def add(a, b):
    if 2 in (a[2], b[2]):
        return NANV
    n = max(a[2], b[2])
    if a[0] == a[1] == INF and b[0] == b[1] == -INF or a[0] == a[1] == -INF and b[0] == b[1] == INF:
        return NANV
    if a[1] == INF and b[0] == -INF or a[0] == -INF and b[1] == INF:
        n = 1
    lo = -INF if -INF in (a[0], b[0]) else a[0] + b[0]
    hi = INF if INF in (a[1], b[1]) else a[1] + b[1]
    if 0 in (a[0], b[0]) or math.isinf(lo) and not math.isinf(a[0]) and not math.isinf(b[0]):
        pass
    else:
        lo = dn(lo) if not math.isinf(lo) else lo
    if not (0 in (a[1], b[1])) and not math.isinf(hi):
        hi = up(hi)
    return (lo, hi, n)


def prod(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def mul(a, b, same=False):
    if 2 in (a[2], b[2]):
        return NANV
    z = lambda v: v[0] <= 0 <= v[1]
    i = lambda v: math.isinf(v[0]) or math.isinf(v[1])
    n = max(a[2], b[2])
    if not same and (z(a) and i(b) or z(b) and i(a)):
        if a[0] == a[1] == 0 and b[0] == b[1] and math.isinf(b[0]) or b[0] == b[1] == 0 and a[0] == a[1] and math.isinf(a[0]):
            return NANV
        n = 1
    c = [prod(x, y) for x in a[:2] for y in b[:2]]
    lo, hi = min(c), max(c)
    if same:
        lo = 0.0 if z(a) else min(prod(a[0], a[0]), prod(a[1], a[1]))
    fix = 0 in a[:2] and a[0] == a[1] or 0 in b[:2] and b[0] == b[1]
    if not fix:
        pos = same or a[0] >= 0 and b[0] >= 0 or a[1] <= 0 and b[1] <= 0
        ng = not same and (a[0] >= 0 >= b[1] or b[0] >= 0 >= a[1])
        if not math.isinf(lo):
            lo = dn(lo)
        elif lo == INF and not i(a) and not i(b):
            pass
        if not math.isinf(hi):
            hi = up(hi)
        if pos:
            lo = max(lo, 0.0)
        if ng:
            hi = min(hi, 0.0)
    return (lo, hi, n)


def div(a, b):
    if 2 in (a[2], b[2]):
        return NANV
    n = max(a[2], b[2])
    za, zb = a[0] <= 0 <= a[1], b[0] <= 0 <= b[1]
    ia, ib = math.isinf(a[0]) or math.isinf(a[1]), math.isinf(b[0]) or math.isinf(b[1])
    if za and zb:
        if a[0] == a[1] == 0 and b[0] == b[1] == 0:
            return NANV
        n = 1
    if ia and ib:
        if a[0] == a[1] and b[0] == b[1] and math.isinf(a[0]) and math.isinf(b[0]):
            return NANV
        n = 1
    if zb:
        if b[0] == b[1] == 0 and not za:
            return (-INF, INF, n) if n else (INF, INF, 0)  # infinite, of either sign
        return (-INF, INF, n)
    c = []
    for x in a[:2]:
        for y in b[:2]:
            if math.isinf(y):
                c.append(0.0 if not math.isinf(x) else math.copysign(INF, x) * math.copysign(1, y))
                if math.isinf(x):
                    c.append(0.0)
            else:
                try:
                    c.append(x / y)
                except OverflowError:
                    c.append(math.copysign(INF, x) * math.copysign(1, y))
    lo, hi = min(c), max(c)
    pos = a[0] >= 0 and b[0] > 0 or a[1] <= 0 and b[1] < 0
    ng = a[1] <= 0 and b[0] > 0 or a[0] >= 0 and b[1] < 0
    if not (a[0] == a[1] == 0) and not (b[0] == b[1] and math.isinf(b[0])):
        lo = dn(lo) if not math.isinf(lo) else lo
        hi = up(hi) if not math.isinf(hi) else hi
        if pos:
            lo = max(lo, 0.0)
        if ng:
            hi = min(hi, 0.0)
    return (lo, hi, n)


def mono(f, lo_lim=-INF, hi_lim=INF, dom=(-INF, INF)):
    """non-decreasing function on dom with values in [lo_lim, hi_lim]; NaN outside of dom"""
    def g(a):
        if a[2] == 2 or a[1] < dom[0] or a[0] > dom[1]:
            return NANV
        n = a[2]
        if a[0] < dom[0] or a[1] > dom[1]:
            n = 1
        x, y = max(a[0], dom[0]), min(a[1], dom[1])
        lo, hi = f(x), f(y)
        lo = lo if math.isinf(lo) or lo == 0 and x in (0, 1) else dn(lo, ULPS)
        hi = hi if math.isinf(hi) or hi == 0 and y in (0, 1) else up(hi, ULPS)
        return (max(lo, lo_lim), min(hi, hi_lim), n)
    return g


def f_exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def exp(a):
    if a[2] == 2:
        return NANV
    lo = INF if a[0] > 710 else (0.0 if a[0] < -744 else max(0.0, dn(f_exp(a[0]), ULPS)))
    hi = 0.0 if a[1] < -746 else (INF if a[1] > 709 else up(f_exp(a[1]), ULPS))
    return (lo, hi, a[2])


def f_log(x):
    return -INF if x == 0 else (INF if x == INF else math.log(x))


def guard_over(f):
    def g(x):
        try:
            return f(x)
        except OverflowError:
            return INF if x > 0 else -INF
    return g


def bounded(lo, hi):
    def g(a):
        if a[2] == 2 or a[0] == a[1] and math.isinf(a[0]):
            return NANV
        return (lo, hi, 1 if a[2] or math.isinf(a[0]) or math.isinf(a[1]) else 0)
    return g


def even(a):
    if a[2] == 2:
        return a
    m = max(abs(a[0]), abs(a[1]))
    return (0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1])), m, a[2])


def hypot(a, b):
    f = lambda x, y: math.hypot(x, y)
    a, b = even(a), even(b)
    if 2 in (a[2], b[2]):
        return NANV
    lo, hi = f(a[0], b[0]), f(a[1], b[1])
    return (max(0.0, dn(lo, ULPS)) if lo != INF else lo, up(hi, ULPS), max(a[2], b[2]))


def atan2(y, x):
    if 2 in (y[2], x[2]):
        return NANV
    n = max(y[2], x[2])
    if x[0] >= 0:
        c = [math.atan2(p, q) for p in y[:2] for q in x[:2]]
        if x[0] == 0 and y[0] <= 0 <= y[1]:
            c += [math.pi / 2 if y[1] > 0 else 0, -math.pi / 2 if y[0] < 0 else 0, 0]
        return (dn(min(c), ULPS), up(max(c), ULPS), n)
    return (-3.15, 3.15, n)


FN = {
    "exp": exp, "log": mono(f_log, dom=(0.0, INF)), "sqrt": mono(lambda x: INF if x == INF else math.sqrt(x), lo_lim=0.0, dom=(0.0, INF)),
    "tanh": mono(math.tanh, -1.0, 1.0), "atan": mono(math.atan, -1.58, 1.58), "log1p": mono(lambda x: -INF if x == -1 else (INF if x == INF else math.log1p(x)), dom=(-1.0, INF)),
    "expm1": mono(guard_over(math.expm1), lo_lim=-1.0), "sin": bounded(-1.0, 1.0), "cos": bounded(-1.0, 1.0), "fabs": even, "hypot": hypot, "atan2": atan2,
    "sinh": mono(guard_over(math.sinh)), "erf": mono(math.erf, -1.0, 1.0), "cbrt": mono(math.cbrt),
    "floor": mono(lambda x: x if math.isinf(x) else float(math.floor(x))), "exp2": mono(guard_over(lambda x: 2.0 ** x), lo_lim=0.0),
}


class Eval:
    """intervals of expressions over a box {input name: (lo, hi)}"""

    def __init__(self, box, over=None):
        self.box, self.over, self.memo = box, over or {}, {}

    def kernel(self, i):
        v = self.memo.get(i)
        if v is None:
            K = alg.KERNELS[i]
            v = self.kernel1(K)
            o = self.over.get(i)
            if o is not None and v[2] != 2:
                v = (max(v[0], o[0]), min(v[1], o[1]), v[2])
            self.memo[i] = v
        return v

    def kernel1(self, K):
        if not K.args:
            if K.name in self.box:
                b = self.box[K.name]
                return (b[0], b[1], 0)
            if K.name == "DBL_MAX":
                return point(1.7976931348623157e308)
            if K.name == "PI":
                return (3.141592653589793, 3.1415926535897936, 0)
            raise Unknown(K.name)
        a = [self.value(x) for x in K.args]
        name = K.name[4:] if K.name.startswith("raw:") else K.name
        if K.name in ("fadd", "fsub"):
            if K.name == "fsub":
                if K.args[0] == K.args[1] and not a[0][2] and not math.isinf(a[0][0]) and not math.isinf(a[0][1]):
                    return (0.0, 0.0, 0)
                a[1] = neg(a[1])
            return add(*a)
        if K.name == "fmul":
            return mul(a[0], a[1], K.args[0] == K.args[1])
        if K.name == "fdiv":
            return div(*a)
        if name in ("fma", "fmuladd"):
            return add(mul(a[0], a[1], K.args[0] == K.args[1]), a[2])
        if name == "pow" and K.args[1].is_const():
            q = K.args[1].cval()
            if q.denominator == 1 and 0 <= q <= 8:
                r = (1.0, 1.0, 0)
                for k in range(int(q)):
                    r = mul(r, a[0])
                if q % 2 == 0:
                    r = (max(r[0], 0.0), r[1], r[2])
                return r
        if name in FN:
            return FN[name](*a)
        raise Unknown(K.name)

    def value(self, r):
        if r is dd.INF:
            return (INF, INF, 0)
        if r is dd.NINF:
            return (-INF, -INF, 0)
        if r is dd.NAN:
            return NANV
        if not isinstance(r, alg.R):
            raise Unknown(str(r))
        if r.is_const():
            return point(r.cval())

        def poly(p):
            out = None
            for m, c in p.items():
                t = None
                for k, e in m:
                    v = self.kernel(k)
                    for _ in range(e):
                        t = v if t is None else mul(t, v)
                if t is None:
                    t = point(c)
                elif c == -1:
                    t = neg(t)
                elif c != 1:
                    t = mul(t, point(c))
                out = t if out is None else add(out, t)
            return out
        n = poly(r.num)
        return n if alg.p_isconst(r.den) and alg.p_cval(r.den) == 1 else div(n, poly(r.den))


def outcomes(v, dom):
    """possible outcomes of a sign test of an interval"""
    out = []
    for o in dom:
        if o[0] == "<" and v[0] < 0 or o[0] == "=" and v[0] <= 0 <= v[1] or o[0] == ">" and v[1] > 0:
            out.append(o)
    return out


def refine(key, o, ev):
    """bounds implied by the outcome of a test of k + const or k - k'"""
    over = dict(ev.over)
    if not alg.p_isconst(key.den):
        return over
    d = alg.p_cval(key.den)
    terms = [(m, c / d) for m, c in key.num.items() if m]
    if any(len(m) != 1 or m[0][1] != 1 for m, _ in terms) or not 1 <= len(terms) <= 2:
        return over
    c0 = key.num.get((), 0)
    for n, (m, c) in enumerate(terms):  # c*k + rest  o  0
        rest = point(c0 / d)
        for q, (m2, c2) in enumerate(terms):
            if q != n:
                rest = add(rest, mul(point(c2), ev.kernel(m2[0][0])))
        k = m[0][0]
        bound = div(neg(rest), point(c))
        old = over.get(k, (-INF, INF))
        op = o[0] if c > 0 else {"<": ">", ">": "<", "=": "="}[o[0]]
        lo, hi = old
        if op in "<=":
            hi = min(hi, bound[1])
        if op in ">=":
            lo = max(lo, bound[0])
        over[k] = (lo, hi)
    return over


def evaluate(node, box):
    """(interval of the node over the box, a NaN may have been compared)"""
    res, bad = None, 0

    def rec(n, ev):
        nonlocal res, bad
        if n.var is None:
            if n.val is dd.UNDEF:
                return
            v = ev.value(n.val) if not isinstance(n.val, bool) else point(int(n.val))
            if v[2] != 2 and v[0] > v[1]:
                return  # contradictory refinements
            res = join(res, v)
            return
        if n.var.key[0] != "sgn":
            for c in n.ch:
                rec(c, ev)
            return
        key = n.var.key[1]
        v = ev.value(key)
        if v[2]:
            bad = max(bad, v[2])
        if v[2] == 2:
            for c in n.ch:
                rec(c, ev)
            return
        os = outcomes(v, n.var.dom)
        for o, c in zip(n.var.dom, n.ch):
            if o in os:
                rec(c, ev if len(os) == 1 else Eval(box, refine(key, o, ev)))
    rec(node, Eval(box))
    return res, bad


def status(node, box):
    """'ok' (finite for every argument of the box), 'bad' (NaN or infinite for every one) or 'split'"""
    v, bad = evaluate(node, box)
    if v is None:
        return "ok", v
    if v[2] == 0 and bad == 0 and -INF < v[0] and v[1] < INF:
        return "ok", v
    if v[2] == 2 or v[0] == INF or v[1] == -INF:
        return "bad", v
    return "split", v


def middle(a, b):
    """splits a range in the middle of its exponents"""
    if a < 0 < b:
        return 0.0
    if a >= 0:
        lo, hi = max(a, 1e-40), max(b, 1e-40)
        return math.exp((math.log(lo) + math.log(hi)) / 2) if hi / lo > 4 else (a + b) / 2
    return -middle(-b, -a)


def decide(node, box, depth, stat):
    """first box found on which the value is always NaN or infinite, or None; counts boxes in stat"""
    s, v = status(node, box)
    stat[s] = stat.get(s, 0) + 1
    if s == "ok":
        return None
    if s == "bad":
        return box, v
    if depth == 0:
        stat["open"] = stat.get("open", 0) + 1
        return None
    def width(n):
        a, b = box[n]
        if a == b:
            return -1
        if a < 0 < b:
            return 1e9
        x, y = sorted((abs(a), abs(b)))
        return math.log(max(y, 1e-40)) - math.log(max(x, 1e-40))
    n = max(box, key=width)
    if width(n) <= 0:
        stat["open"] = stat.get("open", 0) + 1
        return None
    a, b = box[n]
    mid = middle(a, b)
    for r in ((a, mid), (mid, b)):
        f = decide(node, dict(box, **{n: r}), depth - 1, stat)
        if f:
            return f
    return None
