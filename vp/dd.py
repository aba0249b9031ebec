"""Decision diagrams whose inner nodes test symbolic conditions and whose
leaves are normal-form values.  This is the canonical form of a gated value
graph: two gated values are equal iff they are the same node."""
from fractions import Fraction
import alg
from alg import R


class Var:
    __slots__ = ("idx", "key", "dom", "label")


class Node:
    __slots__ = ("id", "var", "ch", "val")

    def __repr__(self):
        return show(self)


class Special:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


UNDEF = Special("undef")
INF = Special("+inf")
NINF = Special("-inf")
NAN = Special("nan")


class Ptr:
    __slots__ = ("base", "off")

    def __init__(self, base, off):
        self.base, self.off = base, off

    def __hash__(self):
        return hash((self.base, self.off))

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.base == o.base and self.off == o.off

    def __repr__(self):
        return "&%s+%s" % (self.base, self.off)


VARS = []
_vidx = {}
_nodes = {}
_leafs = {}
_count = [0]
_memo = {}
ASSUME = {}      # sgn key -> allowed outcomes (assumptions installed by a check)


def mkvar(key, dom, label):
    v = _vidx.get(key)
    if v is None:
        v = Var()
        v.idx, v.key, v.dom, v.label = len(VARS), key, tuple(dom), label
        VARS.append(v)
        _vidx[key] = v
    return v


def leaf(val):
    k = (type(val), val)
    n = _leafs.get(k)
    if n is None:
        n = Node()
        _count[0] += 1
        n.id, n.var, n.ch, n.val = _count[0], None, None, val
        _leafs[k] = n
    return n


T = leaf(True)
F = leaf(False)


def mk(var, ch):
    ch = tuple(ch)
    c0 = ch[0]
    if all(c is c0 for c in ch):
        return c0
    k = (var.idx, tuple(c.id for c in ch))
    n = _nodes.get(k)
    if n is None:
        n = Node()
        _count[0] += 1
        n.id, n.var, n.ch, n.val = _count[0], var, ch, None
        _nodes[k] = n
    return n


def num(x):
    return leaf(alg.lift(x))


class TooBig(Exception):
    pass


LIMIT = 4_000_000


def mapn(f, args, tag):
    """apply f to all combinations of leaves; f may return a Node or leaf value"""
    if all(a.var is None for a in args):
        key = (tag,) + tuple(a.id for a in args)
        r = _memo.get(key)
        if r is None:
            v = f(*[a.val for a in args])
            r = v if isinstance(v, Node) else leaf(v)
            _memo[key] = r
        return r
    key = (tag,) + tuple(a.id for a in args)
    r = _memo.get(key)
    if r is not None:
        return r
    if len(_memo) > LIMIT:
        raise TooBig("decision diagram too large")
    top = min(a.var.idx for a in args if a.var is not None)
    v = VARS[top]
    outs = []
    for i in range(len(v.dom)):
        outs.append(mapn(f, [a.ch[i] if (a.var is v) else a for a in args], tag))
    r = branch(v, outs)
    _memo[key] = r
    return r


def branch(v, outs):
    """node testing v; outs may contain variables above v, so use ite-building"""
    lo = min((o.var.idx for o in outs if o.var is not None), default=None)
    if lo is None or lo > v.idx:
        return mk(v, outs)
    # general case
    key = ("br", v.idx) + tuple(o.id for o in outs)
    r = _memo.get(key)
    if r is not None:
        return r
    w = VARS[lo]
    if w is v:
        outs = [o.ch[i] if o.var is v else o for i, o in enumerate(outs)]
        r = branch(v, outs)
    else:
        r = mk(w, [branch(v, [o.ch[i] if o.var is w else o for o in outs]) for i in range(len(w.dom))])
    _memo[key] = r
    return r


def _ite_memo(c, a, b):
    if c is T:
        return a
    if c is F:
        return b
    if a is b:
        return a
    if a is T and b is F:
        return c
    key = ("ite", c.id, a.id, b.id)
    r = _memo.get(key)
    if r is not None:
        return r
    if len(_memo) > LIMIT:
        raise TooBig("decision diagram too large")
    if c.var is None:  # undefined condition
        return leaf(UNDEF)
    top = min(x.var.idx for x in (c, a, b) if x.var is not None)
    v = VARS[top]
    outs = [_ite_memo(*[x.ch[i] if x.var is v else x for x in (c, a, b)]) for i in range(len(v.dom))]
    r = mk(v, outs)
    _memo[key] = r
    return r


ite = _ite_memo


def land(a, b):
    return ite(a, b, F)


def lor(a, b):
    return ite(a, T, b)


def lnot(a):
    return ite(a, F, T)


def lxor(a, b):
    return ite(a, lnot(b), b)


def implies(a, b):
    return land(a, lnot(b)) is F


def restrict(n, g):
    """simplify n assuming g (values where g is false are don't care)"""
    if g is T or n.var is None:
        return n
    if g is F:
        return n
    if g.var is None:
        return n
    key = ("rst", n.id, g.id)
    r = _memo.get(key)
    if r is not None:
        return r
    top = min(n.var.idx, g.var.idx)
    v = VARS[top]
    gs = [g.ch[i] if g.var is v else g for i in range(len(v.dom))]
    live = [i for i, x in enumerate(gs) if x is not F]
    if n.var is v:
        outs = {}
        for i in live:
            outs[i] = restrict(n.ch[i], gs[i])
        vals = list(outs.values())
        if vals and all(x is vals[0] for x in vals):
            r = vals[0]
        else:
            d = vals[0]
            r = mk(v, [outs.get(i, d) for i in range(len(v.dom))])
    else:
        # g tests v, n does not: disjunction of the branches of g
        gg = F
        for x in gs:
            gg = lor(gg, x)
        r = restrict(n, gg)
    _memo[key] = r
    return r


def cofactors(n, care=T, limit=20000):
    """enumerate (assignment dict var->outcome, leaf value) of the diagram"""
    out = []

    def rec(n, c, asg):
        if c is F:
            return
        if len(out) > limit:
            raise TooBig("too many cases")
        vs = [x.var.idx for x in (n, c) if x.var is not None]
        if n.var is None:
            # care still may constrain; report once
            out.append((dict(asg), n.val))
            return
        v = VARS[min(vs)]
        for i, o in enumerate(v.dom):
            asg[v] = o
            rec(n.ch[i] if n.var is v else n, c.ch[i] if c.var is v else c, asg)
            del asg[v]
    rec(n, care, {})
    return out


def find_true(n):
    """one assignment making boolean n true"""
    if n is F:
        return None
    asg = {}
    while n.var is not None:
        for i, c in enumerate(n.ch):
            if c is not F:
                asg[n.var] = n.var.dom[i]
                n = c
                break
    return asg


def asg_str(asg):
    return "; ".join("%s %s" % (v.label, o) for v, o in asg.items()) or "always"


def show(n, depth=0):
    if n.var is None:
        return str(n.val)
    if depth > 6:
        return "..."
    return "{" + "; ".join("%s %s: %s" % (n.var.label, o, show(c, depth + 1)) for o, c in zip(n.var.dom, n.ch)) + "}"


def support(n):
    seen, out, st = set(), set(), [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.var is not None:
            out.add(x.var)
            st.extend(x.ch)
    return out


def leaves(n):
    seen, out, st = set(), [], [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.var is None:
            out.append(x.val)
        else:
            st.extend(x.ch)
    return out


# ------------------------------------------------------------ comparisons

CFG = {"extrema": False, "nan": False, "raw": False}


def _sgn_key(d):
    """canonical key for sign(d): (key R, flip)"""
    # sign(n/d) = sign(n*d); strip positive factors and content
    n = d.num
    den = d.den
    if not alg.p_isconst(den):
        s = alg.p_sign(den)
        if s in ("+",) or s == "0+":
            pass
        elif s in ("-", "0-"):
            n = alg.p_neg(n)
        else:
            n = alg.p_mul(n, den)
    # strip positive monomial factors
    c, m = alg.p_content(n)
    strip = []
    for k, e in m:
        ks = alg.k_sign(alg.KERNELS[k])
        if ks == "+":
            strip.append((k, e))
        elif e >= 2 and ks == "!0":
            strip.append((k, e - e % 2))
        elif e >= 2 and ks in ("0+", "0-"):
            # powers of a kernel of one sign have the sign of the kernel, up to parity
            strip.append((k, e - 1 if ks == "0+" or e % 2 else e - 2))
        elif e >= 3:
            strip.append((k, e - (1 if e % 2 else 2)))
    strip = tuple(x for x in strip if x[1])
    roots = [(k, e) for k, e in m if alg.KERNELS[k].name == "sqrt" and alg.k_sign(alg.KERNELS[k]) != "+"]
    if roots:
        # sign(sqrt(u) p) = sign(u p)
        rt = tuple(roots)
        r0 = alg.norm({alg.m_div(mm, rt): cc for mm, cc in n.items()}, {(): 1})
        for k, e in roots:
            r0 = alg.mul(r0, alg.powi(alg.KERNELS[k].args[0], e))
        return _sgn_key(r0)
    if strip:
        n = {alg.m_div(mm, strip): cc for mm, cc in n.items()}
    lead = n[max(n)]
    flip = lead < 0
    if flip:
        n = alg.p_neg(n)
    c, _ = alg.p_content(n)
    n = {mm: (lambda v: int(v) if v.denominator == 1 else v)(Fraction(cc) / c) for mm, cc in n.items()}
    r = alg.norm(n, {(): 1})
    # sign(sqrt(a)*p - q) with p,q >= 0 simple forms -> sign(a p^2 - q^2)
    rr = _unsqrt(r)
    if rr is not None and rr.num:
        k2, f2 = _sgn_key(rr)
        return k2, flip != f2
    return r, flip


def _unsqrt(r):
    if len(r.num) != 2:
        return None
    items = list(r.num.items())
    if not any(alg.KERNELS[k].name == "sqrt" for m, _ in items for k, e in m):
        return None
    pos = [(m, c) for m, c in items if c > 0]
    ng = [(m, -c) for m, c in items if c < 0]
    if len(pos) != 1 or len(ng) != 1:
        return None
    a = alg.norm({pos[0][0]: pos[0][1]}, {(): 1})
    b = alg.norm({ng[0][0]: ng[0][1]}, {(): 1})
    if alg.sign_of(a) in ("+", "0+") and alg.sign_of(b) in ("+", "0+"):
        return alg.sub(alg.mul(a, a), alg.mul(b, b))
    return None


TINY = Fraction(2, 10**4)   # guards |x| < epsilon count as guards at 0


def sgn_var(d):
    """d: R (non const).  returns (var, flip) ; dom '<','=','>' relative to 0"""
    key, flip = _sgn_key(d)
    s = alg.sign_of(key)
    dom = ("<0", "=0", ">0")
    if s == "0+":
        dom = ("=0", ">0")
    elif s == "+":
        dom = (">0",)
    elif s == "0-":
        dom = ("<0", "=0")
    elif s == "-":
        dom = ("<0",)
    # assumptions
    allow = ASSUME.get(key)
    if allow:
        dom = tuple(x for x in dom if x in allow)
    if key in ASSUME_FN:
        pass
    return mkvar(("sgn", key, dom), dom, "sign(%s)" % key), flip


ASSUME_FN = {}


def assume_sign(d, outs):
    key, flip = _sgn_key(alg.lift(d))
    if flip:
        sw = {"<0": ">0", ">0": "<0", "=0": "=0"}
        outs = tuple(sw[o] for o in outs)
    ASSUME[key] = tuple(outs)


def sgn_test(d, want):
    """boolean node: sign(d) in want, want subset of {'<','=','>'}"""
    if d.is_const():
        c = d.cval()
        if abs(c) < TINY and c != 0:
            pass
        s = "<" if c < 0 else (">" if c > 0 else "=")
        return T if s in want else F
    v, flip = sgn_var(d)
    if flip:
        want = {{"<": ">", ">": "<", "=": "="}[w] for w in want}
    outs = [T if o[0] in want else F for o in v.dom]
    return mk(v, outs)


def untiny(r):
    """drop additive constants too small to matter (denormal guards)"""
    if not CFG["raw"] and isinstance(r, R) and alg.p_isconst(r.den):
        c = r.num.get((), 0)
        if c != 0 and abs(Fraction(c)) < TINY:
            n = dict(r.num)
            del n[()]
            return alg.norm(n, r.den)
    return r


def cls_var(x):
    """floating class of a value: finite / inf / nan"""
    lead = x.num[max(x.num)]
    k = x if lead > 0 else alg.neg(x)
    return mkvar(("cls", k), ("finite", "inf", "nan"), "class(%s)" % k)


def may_nan(x):
    """a value that the analysis must treat as possibly non finite"""
    if not CFG["nan"] or x.is_const():
        return False
    return any(nanable(k) for k in x.kernels())


def nanable(k):
    K = alg.KERNELS[k]
    return not K.isint and not (K.name in ("DBL_MAX", "FLT_MAX", "PI") and not K.args)


FIN = {}


def class_test(x, outs):
    if x in (INF, NINF):
        return T if "inf" in outs else F
    if x is NAN:
        return T if "nan" in outs else F
    if not isinstance(x, R) or not may_nan(x):
        return T if "finite" in outs else F
    v = cls_var(x)
    r = mk(v, [T if o in outs else F for o in v.dom])
    ks = [k for k in x.kernels() if nanable(k)]
    if len(x.num) == 1 and alg.p_isconst(x.den) and len(ks) == 1:
        return r
    if not alg.p_isconst(x.den) or all(sum(e for _, e in m) <= 1 for m in x.num):
        # sums and ratios of finite quantities are finite
        fin = T
        for k in ks:
            fin = land(fin, class_test(alg.kvar(alg.KERNELS[k]), ("finite",)))
        return ite(fin, T if "finite" in outs else F, r)
    return r


# Maxima and absolute values as terms (CFG["extrema"]): sup(a, b, ...) is the largest of its
# arguments and |u| is sup(u, -u).  Comparing two of them leaves one atom, so choosing the larger
# gives a term again; comparing one of them with anything else compares every argument.

def is_sup(a):
    k = a.kernels()
    K = alg.KERNELS[next(iter(k))] if len(k) == 1 else None
    return K if K is not None and K.name == "sup" and a == alg.kvar(K) else None


def sup(args):
    flat = set()
    for a in args:
        K = is_sup(a)
        flat.update(K.args if K else (a,))
    pos = any(not a.is_const() and alg.neg(a) in flat or alg.sign_of(a) in ("+", "0+", "0") for a in flat)
    if pos:
        flat = {a for a in flat if alg.sign_of(a) not in ("0", "0-", "-")} or flat
    if len(flat) == 1:
        return flat.pop()
    return alg.call("sup", tuple(sorted(flat, key=str)), "0+" if pos else None)


def sups(d):
    return [k for k in d.kernels() if alg.KERNELS[k].name == "sup"]


def sup_split(d):
    """d = c*sup(args) + rest with the sign of c known: (c, args, rest)"""
    for k in sorted(sups(d)):
        K = alg.KERNELS[k]
        if k in alg.p_kernels(d.den):
            continue
        co = {}
        for m, v in d.num.items():
            e = dict(m).get(k)
            if e == 1:
                co[tuple(f for f in m if f[0] != k)] = v
            elif e is not None:
                break
        else:
            c = alg.norm(co, d.den)
            if alg.sign_of(c) in ("+", "-"):
                return c, K.args, alg.sub(d, alg.mul(c, alg.kvar(K)))
    return None


def sup_test(d, want, full=False):
    ks = sups(d)
    s = sup_split(d) if len(ks) == 1 or full and ks else None
    if s is None or not full and not s[2].num:
        return sgn_test(d, want)
    c, args, rest = s
    neg = alg.sign_of(c) == "-"
    rest = alg.div(rest, alg.neg(c) if neg else c)
    if neg:
        flip = {"<": ">", ">": "<", "=": "="}
        rest, want = alg.neg(rest), {flip[w] for w in want}
    lt, gt = T, F
    for a in args:
        v = alg.add(a, rest)
        lt = land(lt, sup_test(v, {"<"}, full))
        gt = lor(gt, sup_test(v, {">"}, full))
    r = F
    if "<" in want:
        r = lor(r, lt)
    if ">" in want:
        r = lor(r, gt)
    if "=" in want:
        r = lor(r, land(lnot(lt), lnot(gt)))
    return r


def settle(n):
    """a choice of the larger (smaller) of two compared values becomes one term"""
    if not CFG["extrema"] or n.var is None:
        return n
    key = ("settle", n.id)
    r = _memo.get(key)
    if r is not None:
        return r
    ch = [settle(x) for x in n.ch]
    r = None
    if n.var.key[0] == "sgn" and all(x.var is None and isinstance(x.val, R) for x in ch):
        by = dict(zip(n.var.dom, [x.val for x in ch]))
        hi = by.get(">0", by.get("=0"))
        lo = by.get("<0", by.get("=0"))
        mid = by.get("=0", hi)
        if mid in (hi, lo) and hi != lo and not alg.sub(hi, lo).is_const():
            k, flip = _sgn_key(untiny(alg.sub(hi, lo)))
            if k == n.var.key[1]:
                r = leaf(sup((hi, lo)) if not flip else alg.neg(sup((alg.neg(hi), alg.neg(lo)))))
    if r is None:
        r = n if all(a is b for a, b in zip(ch, n.ch)) else branch(n.var, ch)
    _memo[key] = r
    return r


def unsup(n):
    """every remaining comparison of maxima spelled out"""
    if n.var is None:
        return n
    key = ("unsup", n.id)
    r = _memo.get(key)
    if r is None:
        ch = [unsup(x) for x in n.ch]
        if n.var.key[0] == "sgn" and sups(n.var.key[1]):
            r = ch[-1]
            for o, x in list(zip(n.var.dom, ch))[:-1]:
                r = ite(sup_test(n.var.key[1], {o[0]}, True), x, r)
        else:
            r = n if all(a is b for a, b in zip(ch, n.ch)) else branch(n.var, ch)
        _memo[key] = r
    return r


def cmp_leaf(a, b, want, unordered, isfloat):
    """leaf comparison; want subset of '<=>' ; unordered: value when NaN involved"""
    if a is UNDEF or b is UNDEF:
        return leaf(UNDEF)
    if isinstance(a, bool):
        a = alg.const(int(a))
    if isinstance(b, bool):
        b = alg.const(int(b))
    spa, spb = isinstance(a, Special), isinstance(b, Special)
    if spa or spb:
        if a is NAN or b is NAN:
            return T if unordered else F
        if spa and spb:
            s = "=" if a is b else ("<" if a is NINF else ">")
            return T if s in want else F
        x, inf, fl = (b, a, True) if spa else (a, b, False)
        if not isinstance(x, R) or not may_nan(x):
            s = "<" if inf is INF else ">"
            if fl:
                s = {"<": ">", ">": "<"}[s]
            return T if s in want else F
        # x versus infinity: decided by the class of x and, when infinite, its sign
        posi = land(class_test(x, ("inf",)), sgn_test(x, {">", "="}))
        negi = land(class_test(x, ("inf",)), sgn_test(x, {"<"}))
        nan = class_test(x, ("nan",))
        def out(s):
            if fl:
                s = {"<": ">", ">": "<", "=": "="}[s]
            return T if s in want else F
        if inf is INF:
            r = ite(posi, out("="), out("<"))
        else:
            r = ite(negi, out("="), out(">"))
        return ite(nan, T if unordered else F, r)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return ptr_cmp(a, b, want)
    if isfloat:
        a, b = untiny(a), untiny(b)
    d = alg.sub(a, b)
    if isfloat:
        if not alg.p_isconst(d.den) or True:
            d = untiny(d)
    base = sup_test(d, want) if CFG["extrema"] and isfloat else sgn_test(d, want)
    if isfloat and CFG["nan"]:
        nn = lor(class_test(a, ("nan",)), class_test(b, ("nan",)))
        return ite(nn, T if unordered else F, base)
    return base


def ptr_cmp(a, b, want):
    if isinstance(a, R) and a.is_const() and a.cval() == 0:
        a = Ptr("null", 0)
    if isinstance(b, R) and b.is_const() and b.cval() == 0:
        b = Ptr("null", 0)
    if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
        return leaf(UNDEF)
    if a.base == b.base:
        if isinstance(a.off, int) and isinstance(b.off, int):
            s = "<" if a.off < b.off else (">" if a.off > b.off else "=")
            return T if s in want else F
        return sgn_test(alg.sub(alg.lift(a.off), alg.lift(b.off)), want)
    if want == {"="} or want == {"<", ">"}:
        for x, y in ((a, b), (b, a)):
            if x.base == "null":
                if y.base.startswith("*"):
                    v = mkvar(("null", y.base), ("null", "set"), y.base[1:])
                    eq = mk(v, [T, F])
                else:
                    eq = F
                return eq if want == {"="} else lnot(eq)
        return F if want == {"="} else T
    # ordering of distinct objects: unknown but consistent
    v = mkvar(("pord", a.base, b.base), ("<", ">"), "order(%s,%s)" % (a.base, b.base))
    return mk(v, [T if "<" in want else F, T if ">" in want else F])
