"""Exact algebraic normal form for value graphs.

A value is a rational function over 'kernels' (program inputs, results of
opaque calls, and applications of elementary functions).  Kernels that satisfy
a polynomial relation (square roots, sine/cosine pairs, ...) are reduced so
that two values are equal over the reals iff their normal forms are identical.
No value is ever evaluated on sample data.
"""
from fractions import Fraction
from functools import lru_cache
import math


class AlgError(Exception):
    pass


class Kernel:
    __slots__ = ("id", "name", "args", "kind", "sign", "deg", "rel", "isint")

    def __repr__(self):
        return kstr(self)


KERNELS = []
_kindex = {}


def kernel(name, args=(), kind="var", sign=None, isint=False):
    """Intern a kernel.  sign: None, '+', '0+', '!0'."""
    key = (name, tuple(args), kind)
    k = _kindex.get(key)
    if k is None:
        k = Kernel()
        k.id = len(KERNELS)
        k.name, k.args, k.kind, k.sign = name, tuple(args), kind, sign
        k.deg, k.rel, k.isint = None, None, isint
        KERNELS.append(k)
        _kindex[key] = k
    return k


def kstr(k):
    if k.kind == "var" and not k.args:
        return k.name
    return "%s(%s)" % (k.name, ", ".join(str(a) for a in k.args))


# ---------------------------------------------------------------- polynomials
# poly: dict {monomial: int|Fraction}, monomial: tuple of (kernel id, exp>0)

def p_const(c):
    return {(): c} if c != 0 else {}


def p_add(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_scale(a, s):
    return {m: c * s for m, c in a.items()} if s != 0 else {}


@lru_cache(maxsize=200000)
def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


MAXTERMS = 6000


def p_mul(a, b):
    if len(a) * len(b) > MAXTERMS * 40:
        raise AlgError("expression too large")
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


def p_isconst(a):
    return not a or (len(a) == 1 and () in a)


def p_cval(a):
    return a.get((), 0) if a else 0


def p_kernels(a):
    s = set()
    for m in a:
        for k, _ in m:
            s.add(k)
    return s


def m_gcd(a, b):
    d = dict(b)
    return tuple((k, min(e, d[k])) for k, e in a if k in d)


def m_div(a, b):
    d = dict(a)
    for k, e in b:
        d[k] -= e
        if d[k] == 0:
            del d[k]
    return tuple(sorted(d.items()))


def p_key(a):
    return tuple(sorted(a.items()))


def p_content(a):
    """positive rational content and common monomial"""
    g, l = 0, 1
    mono = None
    for m, c in a.items():
        c = Fraction(c)
        g = math.gcd(g, abs(c.numerator))
        l = l * c.denominator // math.gcd(l, c.denominator)
        mono = m if mono is None else m_gcd(mono, m)
    return Fraction(g, l), (mono or ())


def p_gcd_cancel(n, d):
    """cancel the polynomial gcd of n and d (both content-free)"""
    ks = sorted(p_kernels(n) & p_kernels(d))
    if not ks:
        return n, d
    if len(n) > 400 or len(d) > 400:
        return n, d
    from sympy.polys.rings import PolyRing
    from sympy.polys.domains import ZZ
    allk = sorted(p_kernels(n) | p_kernels(d))
    ring = PolyRing(["k%d" % k for k in allk], ZZ)
    pos = {k: i for i, k in enumerate(allk)}

    def conv(p):
        l = 1
        for c in p.values():
            c = Fraction(c)
            l = l * c.denominator // math.gcd(l, c.denominator)
        out = {}
        for m, c in p.items():
            t = [0] * len(allk)
            for k, e in m:
                t[pos[k]] = e
            out[tuple(t)] = ZZ(int(Fraction(c) * l))
        return ring.from_dict(out), l

    pn, ln = conv(n)
    pd, ld = conv(d)
    g = pn.gcd(pd)
    if g.is_ground:
        return n, d

    def back(p, l):
        out = {}
        for t, c in p.terms():
            m = tuple((allk[i], e) for i, e in enumerate(t) if e)
            out[m] = Fraction(int(c), l)
        return out

    return back(pn.quo(g), ln), back(pd.quo(g), ld)


class R:
    """canonical rational function"""
    __slots__ = ("num", "den", "key", "_h", "_str")

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, R) and self.key == o.key

    def __ne__(self, o):
        return not self.__eq__(o)

    def is_const(self):
        return p_isconst(self.num) and p_isconst(self.den)

    def cval(self):
        return Fraction(p_cval(self.num)) / Fraction(p_cval(self.den))

    def kernels(self):
        return p_kernels(self.num) | p_kernels(self.den)

    def __repr__(self):
        return rstr(self)

    def __add__(self, o):
        return add(self, lift(o))

    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, lift(o))

    def __rsub__(self, o):
        return sub(lift(o), self)

    def __mul__(self, o):
        return mul(self, lift(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, lift(o))

    def __rtruediv__(self, o):
        return div(lift(o), self)

    def __neg__(self):
        return neg(self)

    def __pow__(self, n):
        return powi(self, n)


def lift(x):
    if isinstance(x, R):
        return x
    return const(x)


_rint = {}


def _mk(num, den):
    key = (p_key(num), p_key(den))
    r = _rint.get(key)
    if r is None:
        r = R()
        r.num, r.den, r.key = num, den, key
        r._h = hash(key)
        r._str = None
        _rint[key] = r
    return r


def const(c):
    if isinstance(c, float):
        c = Fraction(c)
    return _mk(p_const(c if not (isinstance(c, Fraction) and c.denominator == 1) else int(c)), {(): 1})


def kvar(k):
    return _mk({((k.id, 1),): 1}, {(): 1})


def var(name, sign=None, isint=False):
    return kvar(kernel(name, (), "var", sign, isint))


def _alg_kernels(p):
    return [k for k in p_kernels(p) if KERNELS[k].deg]


def _reduce_poly(p):
    """reduce powers of algebraic kernels; returns R or None when already reduced"""
    todo = None
    for m in p:
        for k, e in m:
            d = KERNELS[k].deg
            if d and e >= d:
                todo = True
                break
        if todo:
            break
    if not todo:
        return None
    acc = const(0)
    keep = {}
    for m, c in p.items():
        bad = None
        for k, e in m:
            d = KERNELS[k].deg
            if d and e >= d:
                bad = (k, e, d)
                break
        if not bad:
            keep[m] = c
            continue
        k, e, d = bad
        q, r = divmod(e, d)
        rest = dict(m)
        if r:
            rest[k] = r
        else:
            del rest[k]
        t = norm({tuple(sorted(rest.items())): c}, {(): 1})
        t = mul(t, powi(KERNELS[k].rel, q))
        acc = add(acc, t)
    return add(acc, norm(keep, {(): 1}))


def norm(num, den):
    if not num:
        return _mk({}, {(): 1})
    if not den:
        raise ZeroDivisionError
    rn = _reduce_poly(num)
    rd = _reduce_poly(den)
    if rn is not None or rd is not None:
        rn = rn if rn is not None else norm(num, {(): 1})
        rd = rd if rd is not None else norm(den, {(): 1})
        if rd.is_const() and rd.cval() == 0:
            raise ZeroDivisionError
        return div(rn, rd)
    # rationalise denominators with algebraic kernels
    ak = _alg_kernels(den)
    if ak:
        k = max(ak)
        d = KERNELS[k].deg
        parts = {}
        for m, c in den.items():
            e = dict(m).get(k, 0)
            mm = tuple(x for x in m if x[0] != k)
            parts.setdefault(e, {})[mm] = c
        if len(parts) == 1:
            e = next(iter(parts))
            f = {((k, d - e),): 1}
            return norm2(p_mul(num, f), p_mul(den, f))
        if d == 2:
            f = p_add(parts.get(0, {}), p_neg(p_mul(parts.get(1, {}), {((k, 1),): 1})))
            return norm2(p_mul(num, f), p_mul(den, f))
    cn, mn = p_content(num)
    cd, md = p_content(den)
    g = m_gcd(mn, md)
    if g:
        num = {m_div(m, g): c for m, c in num.items()}
        den = {m_div(m, g): c for m, c in den.items()}
    if not p_isconst(den):
        num, den = p_gcd_cancel(num, den)
    cn, _ = p_content(num)
    cd, _ = p_content(den)
    lead = den[max(den)]
    s = 1 if lead > 0 else -1
    den = {m: int(Fraction(c) / cd * s) for m, c in den.items()}
    f = Fraction(s) / cd
    out = {}
    for m, c in num.items():
        v = Fraction(c) * f
        out[m] = int(v) if v.denominator == 1 else v
    return _mk(out, den)


def norm2(num, den):
    """like norm but num/den may need algebraic reduction afterwards"""
    rn = _reduce_poly(num)
    rd = _reduce_poly(den)
    rn = rn if rn is not None else norm(num, {(): 1})
    rd = rd if rd is not None else norm(den, {(): 1})
    return div(rn, rd)


@lru_cache(maxsize=400000)
def _add(a, b):
    if a.den == b.den:
        return norm(p_add(a.num, b.num), a.den)
    return norm(p_add(p_mul(a.num, b.den), p_mul(b.num, a.den)), p_mul(a.den, b.den))


def add(a, b):
    if not a.num:
        return b
    if not b.num:
        return a
    return _add(a, b)


def neg(a):
    return _mk(p_neg(a.num), a.den)


def sub(a, b):
    return add(a, neg(b))


@lru_cache(maxsize=400000)
def _mul(a, b):
    return norm(p_mul(a.num, b.num), p_mul(a.den, b.den))


def mul(a, b):
    if not a.num or not b.num:
        return const(0)
    return _mul(a, b)


@lru_cache(maxsize=400000)
def div(a, b):
    if not b.num:
        raise ZeroDivisionError
    return norm(p_mul(a.num, b.den), p_mul(a.den, b.num))


def powi(a, n):
    if n < 0:
        return div(const(1), powi(a, -n))
    r = const(1)
    while n:
        if n & 1:
            r = mul(r, a)
        a = mul(a, a) if n > 1 else a
        n >>= 1
    return r


# ---------------------------------------------------------------- printing

def fstr(c):
    c = Fraction(c)
    if c.denominator == 1:
        return str(c.numerator)
    if c.denominator > 10**6 or abs(c.numerator) > 10**9:
        return "%.17g" % float(c)
    return "%d/%d" % (c.numerator, c.denominator)


def pstr(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items()):
        t = "*".join(kstr(KERNELS[k]) + ("^%d" % e if e != 1 else "") for k, e in m)
        if not t:
            t = fstr(c)
        elif c == -1:
            t = "-" + t
        elif c != 1:
            t = fstr(c) + "*" + t
        out.append(t)
    return " + ".join(out).replace("+ -", "- ")


def rstr(r):
    if r._str is None:
        n, d = pstr(r.num), pstr(r.den)
        if d == "1":
            r._str = n
        else:
            if len(r.num) > 1:
                n = "(" + n + ")"
            if len(r.den) > 1 or "*" in d:
                d = "(" + d + ")"
            r._str = n + "/" + d
        if len(r._str) > 600:
            r._str = r._str[:600] + "..."
    return r._str


# ---------------------------------------------------------------- signs

def k_sign(k):
    if k.sign:
        return k.sign
    if k.name == "exp":
        return "+"
    if k.name in ("sqrt", "abs"):
        s = sign_of(k.args[0])
        return "+" if s == "+" else "0+"
    if k.name == "pow":
        s = sign_of(k.args[0])
        if s == "+":
            return "+"
    return None


_psign = {}


def p_sign(p):
    """'+','0+','-','0-' or None"""
    if not p:
        return "0"
    s = p_sign1(p)
    if s is None and 3 <= len(p) <= 40:
        key = p_key(p)
        if key not in _psign:
            _psign[key] = gram_sign(p)
        s = _psign[key]
    return s


def gram_sign(p):
    """sum-of-squares test: p as a quadratic form in the square roots of its square monomials"""
    for neg_ in (False, True):
        q = p_neg(p) if neg_ else p
        halves = []
        for m, c in q.items():
            if c > 0 and all(e % 2 == 0 for _, e in m):
                halves.append(tuple((k, e // 2) for k, e in m))
        n = len(halves)
        if not 1 < n <= 8:
            continue
        G = [[Fraction(0)] * n for _ in range(n)]
        used = set()
        for i in range(n):
            for j in range(i, n):
                m = m_mul(halves[i], halves[j])
                if m in q and m not in used:
                    used.add(m)
                    c = Fraction(q[m])
                    if i == j:
                        G[i][i] = c
                    else:
                        G[i][j] = G[j][i] = c / 2
        if used != set(q):
            continue
        ok, full = True, True
        for i in range(n):
            d = G[i][i]
            if d < 0 or d == 0 and any(G[i][j] != 0 for j in range(i, n)):
                ok = False
                break
            if d == 0:
                full = False
                continue
            for j in range(i + 1, n):
                f = G[j][i] / d
                for k in range(i, n):
                    G[j][k] -= f * G[i][k]
        if ok:
            strict = full and () in halves
            return ("-" if strict else "0-") if neg_ else ("+" if strict else "0+")
    return None


def p_sign1(p):
    strict = False
    sgn = None
    for m, c in p.items():
        s = 1 if c > 0 else -1
        st = True
        for k, e in m:
            ks = k_sign(KERNELS[k])
            if ks == "+":
                continue
            if ks == "0+":
                st = False
                continue
            if e % 2 == 0:
                if ks != "!0":
                    st = False
                continue
            return None
        if sgn is None:
            sgn = s
        elif sgn != s:
            return None
        strict = strict or st
    if sgn > 0:
        return "+" if strict else "0+"
    return "-" if strict else "0-"


def sign_of(r):
    a, b = p_sign(r.num), p_sign(r.den)
    if a == "0":
        return "0"
    if a is None or b is None:
        return None
    s = (1 if "+" in a else -1) * (1 if "+" in b else -1)
    strict = not a.startswith("0") and not (b.startswith("0") and False)
    return ("+" if strict else "0+") if s > 0 else ("-" if strict else "0-")


# ---------------------------------------------------------------- functions

CONSTS = [
    ("LN2", math.log(2.0)), ("LN10", math.log(10.0)), ("PI", math.pi),
    ("SQRT2", math.sqrt(2.0)), ("M_2_SQRTPI", 2 / math.sqrt(math.pi)),
]


def snap_const(f, tol=3e-16):
    """map a floating constant to a symbolic one when it is a known constant"""
    if f == 0:
        return const(0)
    fr = Fraction(f)
    for name, v in (("DBL_MAX", 1.7976931348623157e308), ("FLT_MAX", 3.4028234663852886e38)):
        if abs(f) == v:
            return mul(const(1 if f > 0 else -1), var(name, "+"))
    for name, v in CONSTS:
        for mlt in (Fraction(1), Fraction(2), Fraction(1, 2)):
            t = v * float(mlt)
            for s in (1, -1):
                if abs(f - s * t) <= tol * abs(t):
                    if name == "SQRT2":
                        return mul(const(mlt * s), sqrt(const(2)))
                    if name == "M_2_SQRTPI":
                        return div(const(2 * mlt * s), sqrt(var("PI", "+")))
                    return mul(const(mlt * s), var(name, "+"))
                if abs(f - s / t) <= tol / abs(t):
                    if name == "SQRT2":
                        continue
                    if name == "M_2_SQRTPI":
                        return div(mul(const(s), sqrt(var("PI", "+"))), const(2 * mlt))
                    return div(const(s), mul(const(mlt), var(name, "+")))
    return const(fr)


def _square_part(n):
    """n = s*s*r, s maximal (small trial division)"""
    s, r, f = 1, n, 2
    while f * f <= r and f < 2000:
        while r % (f * f) == 0:
            s *= f
            r //= f * f
        f += 1
    q = math.isqrt(r)
    if q * q == r:
        s *= q
        r = 1
    return s, r


@lru_cache(maxsize=None)
def sqrt(u):
    if not u.num:
        return const(0)
    # pull positive single-monomial factors apart, and numeric squares out
    out = const(1)
    num, den = u.num, u.den
    c, m = p_content(num)
    lead_neg = len(num) == 1 and next(iter(num.values())) < 0
    if c != 1 and not lead_neg:
        a, b = c.numerator, c.denominator
        sa, ra = _square_part(a)
        sb, rb = _square_part(b)
        out = mul(out, const(Fraction(sa, sb)))
        inner = Fraction(ra, rb)
        num = p_scale(num, inner / c)
    def split(p, o, inv):
        c, m = p_content(p)
        keep = []
        for k, e in m:
            ks = k_sign(KERNELS[k])
            if ks in ("+", "0+"):
                h = e // 2
                f = powi(kvar(KERNELS[k]), h)
                if e % 2 and len(p) == 1 and p_sign(p) in ("+", "0+"):
                    f = mul(f, _sqrt_k(kvar(KERNELS[k])))
                    keep.append((k, e))
                else:
                    keep.append((k, 2 * h))
                o = div(o, f) if inv else mul(o, f)
        keep = tuple((k, e) for k, e in keep if e)
        if keep:
            p = {m_div(mm, keep): cc for mm, cc in p.items()}
        return p, o
    num, out = split(num, out, False)
    den, out = split(den, out, True)
    # polynomial perfect squares of a single sum: u = v^2 with v of known sign
    r = norm(num, den)
    if r.is_const():
        v = r.cval()
        if v >= 0:
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator:
                return mul(out, const(Fraction(a, b)))
    if len(r.num) == 1 and p_isconst(r.num) and not p_isconst(r.den) and p_cval(r.num) > 0 and p_sign(r.den) == "+":
        # sqrt(c/d) = sqrt(c*d)/d for d > 0
        return mul(out, div(sqrt(norm(p_scale(r.den, p_cval(r.num)), {(): 1})), norm(r.den, {(): 1})))
    v = _perfect_square(r)
    if v is not None:
        s = sign_of(v)
        if s in ("+", "0+"):
            return mul(out, v)
        if s in ("-", "0-"):
            return mul(out, neg(v))
    return mul(out, _sqrt_k(r))


def _perfect_square(r):
    if len(r.num) > 40 or len(r.den) > 40 or len(r.num) == 1 and len(r.den) == 1:
        return None
    try:
        from sympy.polys.rings import PolyRing
        from sympy.polys.domains import QQ

        def root(p):
            if p_isconst(p):
                v = Fraction(p_cval(p))
                if v < 0:
                    return None
                a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if a * a == v.numerator and b * b == v.denominator:
                    return {(): Fraction(a, b)}
                return None
            ks = sorted(p_kernels(p))
            ring = PolyRing(["k%d" % k for k in ks], QQ)
            pos = {k: i for i, k in enumerate(ks)}
            d = {}
            for m, c in p.items():
                t = [0] * len(ks)
                for k, e in m:
                    t[pos[k]] = e
                c = Fraction(c)
                d[tuple(t)] = QQ(c.numerator, c.denominator)
            cont, facs = ring.from_dict(d).factor_list()
            cont = Fraction(int(cont.numerator), int(cont.denominator))
            rc = root(p_const(cont))
            if rc is None:
                return None
            out = rc
            for f, e in facs:
                if e % 2:
                    return None
                q = {}
                for t, c in f.terms():
                    q[tuple((ks[i], x) for i, x in enumerate(t) if x)] = Fraction(int(c.numerator), int(c.denominator))
                for _ in range(e // 2):
                    out = p_mul(out, q)
            return out
        a = root(r.num)
        if a is None:
            return None
        b = root(r.den)
        if b is None:
            return None
        return norm(a, b)
    except Exception:
        return None


def _sqrt_k(u):
    k = kernel("sqrt", (u,), "fn")
    if k.deg is None:
        k.deg, k.rel = 2, u
    return kvar(k)


@lru_cache(maxsize=None)
def cbrt(u):
    v = None
    if len(u.num) == 1 and p_isconst(u.den):
        m, c = next(iter(u.num.items()))
        if c == 1 and len(m) == 1 and m[0][1] > 1:
            return powi(cbrt(kvar(KERNELS[m[0][0]])), m[0][1])
    k = kernel("cbrt", (u,), "fn")
    k.deg, k.rel = 3, u
    return kvar(k)


@lru_cache(maxsize=None)
def exp(u):
    if not u.num:
        return const(1)
    if p_isconst(u.den):
        out = const(1)
        d = Fraction(p_cval(u.den))
        for m, c in u.num.items():
            q = Fraction(c) / d
            if m and len(m) == 1 and m[0][1] == 1 and KERNELS[m[0][0]].name == "log":
                if q.denominator == 1:
                    out = mul(out, powi(KERNELS[m[0][0]].args[0], int(q)))
                    continue
            if m and len(m) >= 1 and q.denominator == 1 and any(KERNELS[k].name == "log" for k, e in m):
                pass
            base = norm({m: Fraction(1, q.denominator)}, {(): 1})
            k = kernel("exp", (base,), "fn", "+")
            out = mul(out, powi(kvar(k), q.numerator))
        return out
    k = kernel("exp", (u,), "fn", "+")
    return kvar(k)


def _log_prime(n):
    if n == 2:
        return var("LN2", "+")
    return kvar(kernel("log", (const(n),), "fn"))


@lru_cache(maxsize=None)
def log(u):
    if u.is_const() and u.cval() == 1:
        return const(0)
    if u.is_const() and u.cval() == 2:
        return var("LN2", "+")
    if u.is_const() and u.cval() == 10:
        return var("LN10", "+")
    if u.is_const() and u.cval() > 0:
        out = const(0)
        for n, s in ((u.cval().numerator, 1), (u.cval().denominator, -1)):
            f = 2
            while f * f <= n and f < 1000:
                while n % f == 0:
                    out = add(out, mul(const(s), _log_prime(f)))
                    n //= f
                f += 1
            if n > 1:
                out = add(out, mul(const(s), _log_prime(n)))
        return out
    if not p_isconst(u.den) and p_sign(u.den) == "+":
        return sub(log(norm(u.num, {(): 1})), log(norm(u.den, {(): 1})))
    # log of a product: split off positive factors
    out = const(0)
    n = u.num
    c, m = p_content(n)
    strip = tuple((k, e) for k, e in m if k_sign(KERNELS[k]) == "+")
    if p_isconst(u.den) and (strip or c != 1):
        for k, e in strip:
            K = KERNELS[k]
            l = K.args[0] if K.name == "exp" else (div(log(K.args[0]), const(2)) if K.name == "sqrt" else kvar(kernel("log", (kvar(K),), "fn")))
            out = add(out, mul(const(e), l))
        rest = {m_div(mm, strip): cc for mm, cc in n.items()}
        if c != 1:
            rest = p_scale(rest, 1 / c)
            out = add(out, log(const(c)))
        return add(out, log(norm(rest, u.den)))
    return kvar(kernel("log", (u,), "fn"))


def sin(u):
    if not u.num:
        return const(0)
    s, v = _oddsign(u)
    k = kernel("sin", (v,), "fn")
    if k.deg is None:
        c = cos(v)
        k.deg, k.rel = 2, sub(const(1), mul(c, c))
    return kvar(k) if s > 0 else neg(kvar(k))


def cos(u):
    if not u.num:
        return const(1)
    s, v = _oddsign(u)
    return kvar(kernel("cos", (v,), "fn"))


def _oddsign(u):
    lead = u.num[max(u.num)]
    return (1, u) if lead > 0 else (-1, neg(u))


def tan(u):
    return div(sin(u), cos(u))


def sinh(u):
    e = exp(u)
    return div(sub(e, div(const(1), e)), const(2))


def cosh(u):
    e = exp(u)
    return div(add(e, div(const(1), e)), const(2))


def tanh(u):
    return div(sinh(u), cosh(u))


def powr(u, v):
    if v.is_const():
        q = v.cval()
        if q.denominator == 1 and abs(q) <= 64:
            return powi(u, int(q)) if (q >= 0 or u.num) else div(const(1), u)
        if q == Fraction(1, 2):
            return sqrt(u)
    # pow(u, w + k) = pow(u, w) * u^k for integer k
    if p_isconst(v.den):
        c = Fraction(v.num.get((), 0)) / Fraction(p_cval(v.den))
        if c.denominator == 1 and c != 0 and not v.is_const():
            return mul(powr(u, sub(v, const(c))), powi(u, int(c)))
    return kvar(kernel("pow", (u, v), "fn"))


def fn1(name, u):
    return kvar(kernel(name, (u,), "fn"))


def oddfn(name, u):
    if not u.num:
        return const(0)
    s, v = _oddsign(u)
    r = fn1(name, v)
    return r if s > 0 else neg(r)


def call(name, args, sign=None, isint=False):
    return kvar(kernel(name, tuple(args), "fn", sign, isint))


MATH = {
    "sqrt": sqrt, "exp": exp, "log": log, "sin": sin, "cos": cos, "tan": tan,
    "sinh": sinh, "cosh": cosh, "tanh": tanh, "cbrt": cbrt,
    "exp2": lambda u: exp(mul(u, var("LN2", "+"))),
    "log2": lambda u: div(log(u), var("LN2", "+")),
    "log10": lambda u: div(log(u), var("LN10", "+")),
    "log1p": lambda u: log(add(const(1), u)),
    "expm1": lambda u: sub(exp(u), const(1)),
    "asin": lambda u: oddfn("asin", u), "atan": lambda u: oddfn("atan", u),
    "acos": lambda u: fn1("acos", u), "erf": lambda u: oddfn("erf", u),
    "erfc": lambda u: sub(const(1), oddfn("erf", u)),
    "pow": powr, "atan2": lambda y, x: oddfn("atan", div(y, x)) if sign_of(x) == "+" else call("atan2", (y, x)),
    "hypot": lambda a, b: sqrt(add(mul(a, a), mul(b, b))),
    "fma": lambda a, b, c: add(mul(a, b), c),
    "fmuladd": lambda a, b, c: add(mul(a, b), c),
    "j0": lambda u: call("jn", (const(0), u)), "j1": lambda u: call("jn", (const(1), u)),
    "jn": lambda n, u: call("jn", (n, u)),
    "floor": lambda u: fn1("floor", u), "ceil": lambda u: fn1("ceil", u),
}


# ---------------------------------------------------------------- derivatives

def dkernel(k, wrt, memo):
    """d kernel / d wrt (kernel) as R"""
    if k is wrt:
        return const(1)
    if not k.args:
        return const(0)
    ds = [diff(a, wrt, memo) if isinstance(a, R) else None for a in k.args]
    if all(d is None or not d.num for d in ds):
        return const(0)
    a = k.args
    n = k.name
    one = const(1)
    if n == "sqrt":
        return div(ds[0], mul(const(2), kvar(k)))
    if n == "cbrt":
        return div(ds[0], mul(const(3), powi(kvar(k), 2)))
    if n == "exp":
        return mul(ds[0], kvar(k))
    if n == "log":
        return div(ds[0], a[0])
    if n == "sin":
        return mul(ds[0], cos(a[0]))
    if n == "cos":
        return neg(mul(ds[0], sin(a[0])))
    if n == "atan":
        return div(ds[0], add(one, mul(a[0], a[0])))
    if n == "asin":
        return div(ds[0], sqrt(sub(one, mul(a[0], a[0]))))
    if n == "acos":
        return neg(div(ds[0], sqrt(sub(one, mul(a[0], a[0])))))
    if n == "erf":
        return mul(ds[0], mul(div(const(2), sqrt(var("PI", "+"))), exp(neg(mul(a[0], a[0])))))
    if n == "atan2":
        y, x = a
        d = add(mul(x, x), mul(y, y))
        return div(sub(mul(x, ds[0]), mul(y, ds[1])), d)
    if n == "pow":
        u, v = a
        return add(mul(ds[0], mul(v, powr(u, sub(v, one)))), mul(ds[1], mul(kvar(k), log(u))))
    if n == "jn":
        o, u = a
        if o.is_const() and o.cval() == 0:
            return neg(mul(ds[1], call("jn", (const(1), u))))
        return mul(ds[1], div(sub(call("jn", (sub(o, one), u)), call("jn", (add(o, one), u))), const(2)))
    if n in ("floor", "ceil"):
        return const(0)
    raise AlgError("no derivative rule for " + n)


def diff(r, wrt, memo=None):
    """derivative of R with respect to a kernel"""
    if memo is None:
        memo = {}
    if isinstance(wrt, R):
        (m, c), = wrt.num.items()
        wrt = KERNELS[m[0][0]]

    def dp(p):
        out = const(0)
        for m, c in p.items():
            for i, (k, e) in enumerate(m):
                kk = KERNELS[k]
                if (kk, wrt) not in memo:
                    memo[(kk, wrt)] = dkernel(kk, wrt, memo)
                d = memo[(kk, wrt)]
                if not d.num:
                    continue
                rest = dict(m)
                if e == 1:
                    del rest[k]
                else:
                    rest[k] = e - 1
                out = add(out, mul(norm({tuple(sorted(rest.items())): c * e}, {(): 1}), d))
        return out

    n = norm(r.num, {(): 1})
    d = norm(r.den, {(): 1})
    dn, dd = dp(r.num), dp(r.den)
    if not dd.num:
        return div(dn, d)
    return div(sub(mul(dn, d), mul(n, dd)), mul(d, d))


def subst(r, m):
    """substitute kernels (dict Kernel -> R)"""
    memo = {}

    def ks(kid):
        k = KERNELS[kid]
        if kid in memo:
            return memo[kid]
        if k in m:
            v = m[k]
        elif k.args:
            na = [subst(a, m) if isinstance(a, R) else a for a in k.args]
            if all(x is y or x == y for x, y in zip(na, k.args)):
                v = kvar(k)
            elif k.name in MATH:
                v = MATH[k.name](*na)
            else:
                v = kvar(kernel(k.name, tuple(na), k.kind, k.sign, k.isint))
        else:
            v = kvar(k)
        memo[kid] = v
        return v

    def sp(p):
        out = const(0)
        for mm, c in p.items():
            t = const(c)
            for k, e in mm:
                t = mul(t, powi(ks(k), e))
            out = add(out, t)
        return out

    return div(sp(r.num), sp(r.den))
