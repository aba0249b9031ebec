"""Framework shared by all checks: builds the IR extractor, compiles the client
programs against /repo's current headers, runs the value analysis, decides
obligations and writes evidence."""
import hashlib
import json
import os
import re
import subprocess
import sys
import time
import tempfile
import shutil
import traceback
import pickle
import select
import threading
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import alg  # noqa: E402
import dd  # noqa: E402
from alg import R  # noqa: E402
from dd import T, F, Ptr, UNDEF, leaf, num, ite, land, lor, lnot, mapn  # noqa: E402
import interp  # noqa: E402
from interp import Interp, Module, AnalysisError  # noqa: E402
import eig  # noqa: E402

CLANG = "clang++-18"
CXXFLAGS = ("-std=gnu++20 -O1 -Xclang -disable-llvm-passes -gline-tables-only -ffp-contract=off -fno-math-errno "
            "-DHAS_EIGEN -DEIGEN_DONT_VECTORIZE -DEIGEN_MAX_ALIGN_BYTES=0 -DEIGEN_NO_DEBUG -DNDEBUG").split()
INCS = ["-I" + REPO + "/include", "-isystem", "/usr/include/eigen3", "-I" + ROOT + "/clients"]
EIG_OPAQUE = (r"^Eigen::internal::(ldlt_inplace|llt_inplace)<.*::(un)?blocked$", r"^Eigen::internal::(triangular_solve_matrix|general_matrix_matrix_product|product_triangular_matrix_matrix|general_matrix_matrix_triangular_product)<.*::run$",
              r"^Eigen::internal::(evaluateProductBlockingSizesHeuristic|manage_caching_sizes|queryCacheSizes|computeProductBlockingSizes)")
STR_OPAQUE = r"^std::.*(basic_string|ostringstream|basic_ostream|basic_ios\b|__ostream_insert|basic_stringbuf|locale)"


class Broken(Exception):
    """the analysis itself could not be carried out"""


TOOLS = {"irx": ("-O1", ["-lLLVM-18"]), "astq": ("-O0", ["-l:libclang-cpp.so.18.1", "-lLLVM-18"])}


def build_tool(name="irx"):
    src = os.path.join(ROOT, "tool", name + ".cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    bdir = os.path.join(ROOT, ".build")
    exe = os.path.join(bdir, name + "-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(bdir, exist_ok=True)
    tmp = exe + ".%d" % os.getpid()
    opt, libs = TOOLS[name]
    cmd = ["g++", opt, "-std=c++17", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-L/usr/lib/llvm-18/lib"] + libs + [
        "-Wl,-rpath,/usr/lib/llvm-18/lib", "-o", tmp]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken("cannot build %s: %s" % (name, r.stderr[-2000:]))
    os.rename(tmp, exe)
    return exe


def resource_dir():
    return subprocess.run([CLANG, "-print-resource-dir"], capture_output=True, text=True).stdout.strip()


def library_headers():
    """the headers below include/, as they are written in an #include"""
    inc = os.path.join(REPO, "include")
    return sorted(os.path.relpath(os.path.join(d, f), inc) for d, _, fs in os.walk(inc) for f in fs if f.endswith((".h", ".hpp")))


def missing_external(header):
    """the first file outside the library that the header includes and that is not installed here"""
    dirs = [i[2:] for i in INCS if i.startswith("-I")] + ["/usr/include/eigen3"]
    for l in open(os.path.join(REPO, "include", header), errors="replace"):
        m = re.match(r'\s*#\s*include\s*[<"]([^>"]+/[^>"]+)[>"]', l)
        if m and not m.group(1).startswith(("tinyopt/", "Eigen/", "unsupported/", "fmt/", "sys/")):
            p = m.group(1)
            if not any(os.path.exists(os.path.join(d, p)) for d in dirs + ["/usr/include", os.path.dirname(os.path.join(REPO, "include", header))]):
                return p
    return None


class Work:
    """scratch directory of one check run"""

    def __init__(self):
        base = os.path.join(ROOT, ".build", "work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(dir=base)

    def path(self, n):
        return os.path.join(self.dir, n)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


RETRY = threading.Lock()


def compile_client(work, src, tag=None, opaque=(), defs=(), keep_unwind=False, std=None, text=None, irxopts=(), shards=1):
    """client source (file under clients/ or text) -> Module"""
    exe = build_tool()
    tag = tag or os.path.splitext(os.path.basename(src))[0]
    if text is not None:
        path = work.path(tag + ".cpp")
        open(path, "w").write(text)
    else:
        path = os.path.join(ROOT, "clients", src)
    bc, js = work.path(tag + ".bc"), work.path(tag + ".json")
    cmd = [CLANG] + CXXFLAGS + list(defs) + INCS + ["-c", "-emit-llvm", path, "-o", bc]
    if std:
        cmd = [c if not c.startswith("-std=") else "-std=" + std for c in cmd]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken("client %s does not compile:\n%s" % (tag, r.stderr[-3000:]))

    def extract(k):
        cmd = [exe, bc, js + str(k)]
        for o in list(opaque) + [STR_OPAQUE] + list(EIG_OPAQUE):
            cmd += ["--opaque", o]
        if keep_unwind:
            cmd.append("--keep-unwind")
        if shards > 1:
            cmd += ["--shard", str(k), str(shards)]
        r = subprocess.run(cmd + list(irxopts), capture_output=True, text=True)
        if r.returncode < 0:  # killed, e.g. short of memory: once more, one at a time
            with RETRY:
                r = subprocess.run(cmd + list(irxopts), capture_output=True, text=True)
        if r.returncode:
            raise Broken("irx failed on %s: %s" % (tag, r.stderr[-2000:]))
    with ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(extract, range(shards)))
    m = Module([js + str(k) for k in range(shards)])
    for s in m.shards:
        s.tag = tag
    m.tag = tag
    return m


def compile_many(work, specs):
    """specs: list of kwargs dicts for compile_client; compiled in parallel"""
    build_tool()
    with ThreadPoolExecutor(max_workers=6) as ex:
        return list(ex.map(lambda kw: compile_client(work, **kw), specs))


def try_compile(work, text, tag, defs=(), std="gnu++20", extra=(), compiler=CLANG):
    """syntax-only compile; returns (ok, stderr)"""
    path = work.path(tag + ".cpp")
    open(path, "w").write(text)
    cmd = [compiler, "-std=" + std, "-fsyntax-only"] + list(defs) + INCS + list(extra) + [path]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode == 0, r.stderr


# ------------------------------------------------------------------ feasibility of a case

def _atom(v, o):
    """sign atom -> (poly, op)"""
    if v.key[0] != "sgn":
        return None
    return v.key[1], o[0]


def linear_infeasible(cons):
    """cons: list of (dict mono->Fraction, op in '<','=','>' meaning expr op 0).  Exact elimination over
    monomials seen as independent unknowns; True only when no assignment exists."""
    rows = []
    for e, op in cons:
        e = {m: Fraction(c) for m, c in e.items()}
        if op == ">":
            rows.append((e, True))
        elif op == "<":
            rows.append(({m: -c for m, c in e.items()}, True))
        elif op == ">=":
            rows.append((e, False))
        elif op == "=":
            rows.append((e, False))
            rows.append(({m: -c for m, c in e.items()}, False))
    monos = set()
    for e, _ in rows:
        monos |= set(m for m in e if m != ())
    for m in list(monos):
        s = alg.p_sign({m: 1})
        if s == "+":
            rows.append(({m: Fraction(1)}, True))
        elif s == "0+":
            rows.append(({m: Fraction(1)}, False))
    while True:
        for e, strict in rows:
            if not e or set(e) <= {()}:
                c = e.get((), 0)
                if c < 0 or (strict and c <= 0):
                    return True
        monos = set()
        for e, _ in rows:
            monos |= set(m for m in e if m != ())
        if not monos:
            return False
        best, cost = None, None
        for m in monos:
            p = sum(1 for e, _ in rows if e.get(m, 0) > 0)
            n = sum(1 for e, _ in rows if e.get(m, 0) < 0)
            if cost is None or p * n - p - n < cost:
                best, cost = m, p * n - p - n
        m = best
        pos = [(e, s) for e, s in rows if e.get(m, 0) > 0]
        neg = [(e, s) for e, s in rows if e.get(m, 0) < 0]
        rest = [(e, s) for e, s in rows if e.get(m, 0) == 0]
        if len(pos) * len(neg) > 4000:
            return False
        for e1, s1 in pos:
            for e2, s2 in neg:
                a, b = e1[m], -e2[m]
                r = {}
                for k, c in e1.items():
                    r[k] = r.get(k, 0) + c * b
                for k, c in e2.items():
                    r[k] = r.get(k, 0) + c * a
                r = {k: c for k, c in r.items() if c != 0 and k != m}
                rest.append((r, s1 or s2))
        rows = []
        seen = set()
        for e, s in rest:
            e = {k: c for k, c in e.items() if c != 0}
            k = (tuple(sorted(e.items())), s)
            if k not in seen:
                seen.add(k)
                rows.append((e, s))


def integral(p):
    return all(Fraction(c).denominator == 1 for c in p.values()) and all(alg.KERNELS[k].isint for mono in p for k, _ in mono)


def atom_constraint(v, o):
    p, op = dict(v.key[1].num), o[0]
    if op in "<>" and integral(p):
        # an integer that is not 0 is at least 1 away from it
        if op == "<":
            p = alg.p_neg(p)
        p[()] = p.get((), 0) - 1
        op = ">="
    return p, op


def infeasible(asg, extra=()):
    cons, raw = list(extra), list(extra)
    for v, o in asg.items():
        a = _atom(v, o)
        if a:
            cons.append(atom_constraint(v, o))
            raw.append((dict(a[0].num), a[1]))
    if linear_infeasible(cons):
        return True
    # products: a > 0 and b > 0 gives a*b > 0 (pairwise, small systems only)
    small = [c for c in raw if len(c[0]) <= 4 and c[1] in ("<", ">", "=")]
    if 2 <= len(small) <= 8:
        more = []
        for i in range(len(small)):
            for j in range(i, len(small)):
                (p, a), (q, b) = small[i], small[j]
                r = alg.p_mul(p, q)
                if len(r) > 12:
                    continue
                op = "=" if "=" in (a, b) else (">" if a == b else "<")
                more.append((r, op))
        if linear_infeasible(cons + more):
            return True
    return False


_PRUNE = {}


def contradicts(asg, w):
    """the sign atoms of asg that share quantities with atom w (directly or through others) exclude each other"""
    if w.key[0] != "sgn" or len(asg) < 2:
        return False
    ks, part, rest = set(w.key[1].kernels()), [w], [v for v in asg if v is not w and v.key[0] == "sgn"]
    grew = True
    while grew and rest:
        grew = False
        for v in list(rest):
            k = set(v.key[1].kernels())
            if k & ks:
                ks |= k
                part.append(v)
                rest.remove(v)
                grew = True
    if len(part) < 2 or len(part) > 10:
        return False
    key = frozenset((v.idx, asg[v]) for v in part)
    if key not in _PRUNE:
        cons = [atom_constraint(v, asg[v]) for v in part]
        _PRUNE[key] = linear_infeasible(cons)
    return _PRUNE[key]


def equalities(asg, more=()):
    """substitutions implied by the '=0' atoms of a case (and the polynomials more, which are 0)"""
    m = {}
    zero = list(more)
    for v, o in asg.items():
        a = _atom(v, o)
        if a and a[1] == "=":
            zero.append(dict(a[0].num))
    for p in zero:
        # pick a variable occurring linearly in exactly one monomial on its own
        for mono, c in sorted(p.items(), reverse=True):
            if len(mono) == 1 and mono[0][1] == 1:
                k = mono[0][0]
                K = alg.KERNELS[k]
                if K in m or K.args:
                    continue
                if any(k in dict(mm) for mm in p if mm != mono):
                    continue
                rest = {mm: -Fraction(cc) / c for mm, cc in p.items() if mm != mono}
                m[K] = alg.subst(alg.norm(rest, {(): 1}), m) if rest else alg.const(0)
                break
    # remaining equations: solve for a kernel of degree one, p = A k + B (A not zero: rational functions that
    # agree there agree wherever both are defined)
    for z in zero:
        try:
            p = alg.subst(alg.norm(dict(z), {(): 1}), m).num
        except ZeroDivisionError:
            continue
        deg = {}
        for mono in p:
            for k, e in mono:
                deg[k] = max(deg.get(k, 0), e)
        best = None
        for k, e in deg.items():
            K = alg.KERNELS[k]
            if e != 1 or K in m or (K.args and not K.name.startswith("u_")):
                continue
            n = sum(1 for mono in p if k in dict(mono))
            if best is None or n < best[0]:
                best = (n, k)
        if best:
            k = best[1]
            A = {tuple(x for x in mono if x[0] != k): c for mono, c in p.items() if k in dict(mono)}
            B = {mono: -c for mono, c in p.items() if k not in dict(mono)}
            try:
                val = alg.norm(B, A)
                K = alg.KERNELS[k]
                m = {kk: alg.subst(vv, {K: val}) for kk, vv in m.items()}
                m[K] = val
            except ZeroDivisionError:
                continue
    return m


def leaf_equal(a, b, asg=None):
    if a is b or (type(a) == type(b) and a == b):
        return True
    if isinstance(a, bool) and isinstance(b, R):
        a = alg.const(int(a))
    if isinstance(b, bool) and isinstance(a, R):
        b = alg.const(int(b))
    if isinstance(a, R) and isinstance(b, R):
        if a == b:
            return True
        if asg:
            m = equalities(asg)
            if m:
                try:
                    if alg.subst(a, m) == alg.subst(b, m):
                        return True
                except ZeroDivisionError:
                    pass
                return split_equal(a, b, asg)
    return False


def factors(p):
    """irreducible factors of a polynomial (as polynomials), constants left out"""
    import sympy
    ks = sorted({k for mono in p for k, _ in mono})
    if not ks or len(ks) > 12 or len(p) > 60:
        return [p]
    S = {k: sympy.Symbol("k%d" % i) for i, k in enumerate(ks)}
    e = sum(sympy.Rational(Fraction(c).numerator, Fraction(c).denominator) * sympy.Mul(*[S[k] ** x for k, x in mono]) for mono, c in p.items())
    out = []
    for f, _ in sympy.factor_list(e)[1]:
        q = sympy.Poly(f, *[S[k] for k in ks])
        out.append({tuple((k, x) for k, x in zip(ks, ex) if x): Fraction(int(c.p), int(c.q)) for ex, c in q.terms()})
    return out


def split_equal(a, b, asg):
    """a = b in each of the cases f = 0 of the factors f of one '=0' atom; factors of quantities known not to be 0 are no cases"""
    nonzero = set()
    for v, o in asg.items():
        t = _atom(v, o)
        if t and t[1] in "<>":
            for f in factors(dict(t[0].num)):
                nonzero.add(frozenset(f.items()))
                nonzero.add(frozenset(alg.p_neg(f).items()))
    for v, o in asg.items():
        t = _atom(v, o)
        if not t or t[1] != "=":
            continue
        fs = factors(dict(t[0].num))
        if len(fs) < 2:
            continue
        rest = {w: x for w, x in asg.items() if w is not v}
        ok = True
        for f in fs:
            if frozenset(f.items()) in nonzero or alg.p_sign(f) in ("+", "-"):
                continue
            m = equalities(rest, [f])
            try:
                if not m or alg.subst(a, m) != alg.subst(b, m):
                    ok = False
                    break
            except ZeroDivisionError:
                ok = False
                break
        if ok:
            return True
    return False


def differing_case(V, E, care=T, tol=None, limit=4000, extra=()):
    """None when V equals E in every feasible case of care, otherwise (case, got, want)"""
    if isinstance(V, tuple):
        for v, e in zip(V, E):
            r = differing_case(v, e, care, tol, limit, extra)
            if r:
                return r
        return None
    if V is E:
        return None
    if isinstance(V, dd.Node) and isinstance(E, dd.Node):
        # only the cases in which the canonical forms differ have to be looked at one by one
        care = land(care, mapn(lambda a, b: leaf(not leaf_equal(a, b)), [V, E], "differ"))
    cnt = [0]

    def rec(v, e, c, asg):
        if c is F or v is e:
            return None
        if v.var is None and e.var is None:
            if leaf_equal(v.val, e.val):
                return None
            if tol and tol(v.val, e.val):
                return None
        vs = [x.var.idx for x in (v, e, c) if x.var is not None]
        if not vs:
            cnt[0] += 1
            if cnt[0] > limit:
                raise Broken("too many cases to compare")
            if leaf_equal(v.val, e.val, asg):
                return None
            if infeasible(asg, extra):
                return None
            return dict(asg), v.val, e.val
        w = dd.VARS[min(vs)]
        for i, o in enumerate(w.dom):
            asg[w] = o
            cc = c.ch[i] if c.var is w else c
            r = None
            if cc is not F and not contradicts(asg, w):
                r = rec(v.ch[i] if v.var is w else v, e.ch[i] if e.var is w else e, cc, asg)
            del asg[w]
            if r:
                return r
        return None

    return rec(V, E, care, {})


def true_case(n, extra=(), limit=4000):
    """a feasible case in which boolean n is true, or None"""
    cnt = [0]

    def rec(n, asg):
        if n is F:
            return None
        if n.var is None:
            cnt[0] += 1
            if cnt[0] > limit:
                raise Broken("too many cases")
            if infeasible(asg, extra):
                return None
            return dict(asg)
        for i, o in enumerate(n.var.dom):
            asg[n.var] = o
            r = rec(n.ch[i], asg) if n.ch[i] is not F and not contradicts(asg, n.var) else None
            del asg[n.var]
            if r is not None:
                return r
        return None
    return rec(n, {})


def project(n, keep):
    """boolean n with every condition var for which keep(var) is false taken as possible either way"""
    memo = {}

    def rec(n):
        if n.var is None:
            return n
        if n.id not in memo:
            ch = [rec(x) for x in n.ch]
            if keep(n.var):
                memo[n.id] = dd.branch(n.var, ch)
            else:
                r = F
                for x in ch:
                    r = lor(r, x)
                memo[n.id] = r
        return memo[n.id]
    return rec(n)


def loc_str(loc):
    """innermost library frame of a location chain"""
    if not loc:
        return "?"
    for f, l, fn in loc:
        if "/tinyopt/" in f:
            return "%s:%d (%s)" % (os.path.relpath(f, REPO) if f.startswith(REPO) else f, l, fn)
    f, l, fn = loc[0]
    return "%s:%d (%s)" % (f, l, fn)


# ------------------------------------------------------------------ analysing one root

class Arr:
    """array argument with n unknown (or given) elements"""

    def __init__(self, base, n=0, sz=8, sign=None, vals=None, isint=False, off=0):
        self.base, self.n, self.sz, self.sign, self.vals, self.isint, self.off = base, n, sz, sign, vals, isint, off


OUT = Arr("out")


class Res:
    """result of analysing one root function"""

    def __init__(self, it, m, root, ret, mem, guard):
        self.it, self.m, self.root, self.ret, self.mem, self.guard = it, m, root, ret, mem, guard

    def cell(self, base, off, sz=8, k="f"):
        o = self.mem.get(base)
        if o is None:
            o = interp.Obj()
        return self.it.read_cell(o, base, off, {"k": k, "w": 8 * sz, "sz": sz})

    def out(self, i, sz=8):
        return self.cell("out", i * sz, sz)

    def outs(self, n, sz=8):
        return [self.out(i, sz) for i in range(n)]

    def where(self):
        """last library line that computes an output"""
        return self.m.tag + "::" + self.root + where_hint(self.m, self.root)


def where_hint(m, root):
    fn = m.fns[root]
    files = {}
    for b in fn["blocks"]:
        for i in b:
            for f, l, n in i.get("loc", []):
                if "/tinyopt/" in f:
                    files.setdefault((os.path.relpath(f, REPO) if f.startswith(REPO) else f, n), set()).add(l)
                    break
    if not files:
        return ""
    return " [" + ", ".join("%s:%d-%d %s" % (f, min(ls), max(ls), n.split("<")[0] or n) for (f, n), ls in sorted(files.items(), key=lambda x: -len(x[1]))[:3]) + "]"


def analyse(c, m, root, args, mem=None, setup=None, summaries=None, **kw):
    if root not in m.fns:
        raise Broken("root %s vanished from %s" % (root, m.tag))
    m = m.of(root)
    it = Interp(m, summaries=list(summaries or []) + eig.SUMMARIES, **kw)
    it.decomps = []
    it.maths = []
    av = []
    mem = dict(mem or {})
    for a in args:
        if isinstance(a, Arr):
            for i in range(a.n):
                nm = "%s%d" % (a.base, i)
                it.names[(a.base, a.off + i * a.sz)] = nm
                if a.sign:
                    it.objsign[(a.base, a.off + i * a.sz)] = a.sign
                alg.var(nm, a.sign, a.isint)
            if a.vals:
                o = interp.Obj()
                for i, v in enumerate(a.vals):
                    o.cells[a.off + i * a.sz] = (a.sz, v if isinstance(v, dd.Node) else num(v))
                mem[a.base] = o
            av.append(leaf(Ptr(a.base, a.off)))
        elif isinstance(a, dd.Node):
            av.append(a)
        elif isinstance(a, (R, int, Fraction)):
            av.append(num(a))
        else:
            av.append(a)
    if setup:
        setup(it)
    fn = m.fns[root]
    if len(fn["args"]) != len(av):
        raise Broken("root %s takes %d arguments" % (root, len(fn["args"])))
    ret, mm, g = it.run(root, av, mem)
    c.take(it)
    c.instances.append(m.tag + "::" + root)
    return Res(it, m, root, ret, mm, g)


def _cmp(a, b, want):
    if isinstance(a, dd.Node) or isinstance(b, dd.Node):
        return mapn(lambda x, y: _cmp(x, y, want), [N(a), N(b)], ("fwcmp",) + tuple(sorted(want)))
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    a, b = [x if isinstance(x, dd.Special) else alg.lift(x) for x in (a, b)]
    return dd.cmp_leaf(a, b, want, False, False)


def cmp_lt(a, b):
    return _cmp(a, b, {"<"})


def cmp_le(a, b):
    return _cmp(a, b, {"<", "="})


def cmp_eq(a, b):
    return _cmp(a, b, {"="})


def N(x):
    """value -> node"""
    return x if isinstance(x, dd.Node) else num(x)


def n_add(a, b):
    return mapn(lambda x, y: alg.add(x, y), [N(a), N(b)], "n_add")


def n_mul(a, b):
    return mapn(lambda x, y: alg.mul(x, y), [N(a), N(b)], "n_mul")


def n_neg(a):
    return mapn(alg.neg, [N(a)], "n_neg")


def n_diff(a, x):
    return mapn(lambda v: alg.diff(v, x), [N(a)], ("n_diff", x))


def n_subst(a, m):
    """substitute kernels in leaves and in the branch conditions"""
    key = ("n_subst", tuple(sorted((k.id, v) for k, v in m.items())))
    memo = {}

    def rec(n):
        if n.id in memo:
            return memo[n.id]
        if n.var is None:
            r = leaf(alg.subst(n.val, m)) if isinstance(n.val, R) else n
        else:
            ch = [rec(x) for x in n.ch]
            v = n.var
            if v.key[0] == "sgn":
                d = alg.subst(v.key[1], m)
                r = None
                for i, o in reversed(list(enumerate(v.dom))):
                    r = ch[i] if r is None else ite(dd.sgn_test(d, {o[0]}), ch[i], r)
            else:
                r = dd.branch(v, ch)
        memo[n.id] = r
        return r
    return rec(N(a))


def n_abs(x):
    x = alg.lift(x)
    return ite(dd.sgn_test(x, {"<"}), num(alg.neg(x)), num(x))


def sgn_of(x):
    x = alg.lift(x)
    return ite(dd.sgn_test(x, {"<"}), num(-1), ite(dd.sgn_test(x, {"="}), num(0), num(1)))


def kernel_of(v):
    (m, c), = v.num.items()
    return alg.KERNELS[m[0][0]]


def V(name, sign=None, isint=False):
    return alg.var(name, sign, isint)


def arr(base, n, sign=None):
    return [alg.var("%s%d" % (base, i), sign) for i in range(n)]


# ------------------------------------------------------------------ check driver

class Check:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "0"))
        except ValueError:
            self.seed = 0
        self.obl = 0
        self.ok = 0
        self.viol = []
        self.known = []
        self.instances = []
        self.stats = {}
        self.functions = set()
        self.lines = set()
        self.notes = {}
        self.work = Work()
        self.kf = load_known(pid)
        self.unmatched = []
        self.broken = []
        self.assumptions = []
        self.limit = 4000      # cases compared per obligation

    @property
    def thorough(self):
        return self.tier == "thorough"

    def take(self, it):
        for k, v in it.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        for f, l, fn in it.lines:
            self.lines.add((f, l))
            self.functions.add(fn)

    def oblige(self, key, ok, where="", detail=""):
        """one obligation; key identifies the rule instance"""
        self.obl += 1
        if ok:
            self.ok += 1
            return True
        for pat, text in self.kf:
            if re.fullmatch(pat, key):
                self.known.append((key, text))
                return False
        self.viol.append({"instance": key, "where": where() if callable(where) else where, "detail": detail})
        return False

    def count(self, what, n):
        self.stats[what] = self.stats.get(what, 0) + n

    def equal(self, key, V, E, care=T, where="", tol=None, extra=()):
        r = differing_case(V, E, care, tol, self.limit, extra)
        if r is None:
            return self.oblige(key, True)
        asg, got, want = r
        return self.oblige(key, False, where, "case [%s]: computes %s, required %s" % (dd.asg_str(asg), got, want))

    def never(self, key, cond, where="", what="", extra=()):
        r = true_case(cond, extra, self.limit)
        if r is None:
            return self.oblige(key, True)
        return self.oblige(key, False, where, "%s in case [%s]" % (what, dd.asg_str(r)))

    def guarded(self, fn):
        """run one part of a check; an analysis failure there does not hide what other parts find"""
        try:
            fn()
        except (Broken, AnalysisError, dd.TooBig, alg.AlgError) as e:
            self.broken.append("%s: %s" % (type(e).__name__, e))
        except Exception:
            self.broken.append(traceback.format_exc()[-1500:])

    def parallel(self, tasks, workers=None):
        """tasks: callables; spread over forked workers, their obligations are merged here"""
        tasks = list(tasks)
        workers = min(workers or min(8, os.cpu_count() or 1), len(tasks))
        if workers <= 1:
            for t in tasks:
                self.guarded(t)
            return
        sys.stdout.flush()

        def start(task):
            r, wr = os.pipe()
            pid = os.fork()
            if pid:
                os.close(wr)
                return pid, r
            code = 1
            try:
                os.close(r)
                self.obl = self.ok = 0
                self.viol, self.known, self.instances, self.broken = [], [], [], []
                self.stats, self.functions, self.lines, self.notes = {}, set(), set(), {}
                self.guarded(task)
                d = pickle.dumps((self.obl, self.ok, self.viol, self.known, self.instances, self.broken, self.stats, self.functions, self.lines, self.notes))
                with os.fdopen(wr, "wb") as f:
                    f.write(d)
                code = 0
            except BaseException:
                import traceback
                sys.stderr.write("".join(traceback.format_exc()[-1500:]) + "\n")
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)

        # one process per task: a result never depends on which tasks ran before in the same process
        res, live = [None] * len(tasks), {}
        todo = list(range(len(tasks)))
        while todo or live:
            while todo and len(live) < workers:
                i = todo.pop(0)
                pid, r = start(tasks[i])
                live[r] = (i, pid, [])
            for r in select.select(list(live), [], [])[0]:
                b = os.read(r, 1 << 20)
                i, pid, buf = live[r]
                if b:
                    buf.append(b)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                res[i] = b"".join(buf)
                del live[r]
        for d in res:
            try:
                o, k, vi, kn, ins, br, st, fu, li, no = pickle.loads(d)
            except Exception:
                self.broken.append("analysis worker died")
                continue
            self.obl += o
            self.ok += k
            self.viol += vi
            self.known += kn
            self.instances += ins
            self.broken += br
            for a, b in st.items():
                self.stats[a] = self.stats.get(a, 0) + b
            self.functions |= fu
            self.lines |= li
            self.notes.update(no)
        self.viol.sort(key=lambda v: v["instance"])

    def finish(self, min_obl=1, coverage=None, level="other"):
        self.work.close()
        cov = {
            "explanation": self.rule,
            "obligations": self.obl,
            "discharged": self.ok,
            "known_findings": len(self.known),
            "instances": sorted(set(self.instances)),
            "library_functions_analysed": sorted(f for f in self.functions if f),
            "library_source_lines_analysed": len(self.lines),
            "ir_instructions": self.stats.get("instructions", 0),
            "ir_blocks": self.stats.get("blocks", 0),
            "call_sites": self.stats.get("calls", 0),
        }
        cov.update({k: v for k, v in self.stats.items() if k not in ("instructions", "blocks", "calls")})
        cov.update(self.notes)
        if coverage:
            cov.update(coverage)
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed,
              "level": level, "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3)}
        ev["violations"] = len(self.viol)
        if self.viol:
            cov["violated"] = self.viol_json()
        write_evidence(self.pid, ev)
        print("%s: %d obligations, %d discharged, %d known findings; %d IR instructions, %d library lines, %d instances; %.1f s" % (
            self.pid, self.obl, self.ok, len(self.known), cov["ir_instructions"], len(self.lines), len(cov["instances"]), ev["wall_s"]))
        seen = set()
        for k, t in self.known:
            if t not in seen:
                seen.add(t)
                print("KNOWN-FINDING: property=%s %s" % (self.pid, t))
        if self.viol:
            rp = os.path.join(ROOT, "evidence", self.pid + ".violation.txt")
            with open(rp, "w") as f:
                f.write("property %s\nrule: %s\n\n" % (self.pid, self.rule))
                for v in self.viol:
                    f.write("instance: %s\n  at: %s\n  %s\n\n" % (v["instance"], v["where"], v["detail"]))
            for v in self.viol[:8]:
                print("  violated: %s at %s: %s" % (v["instance"], v["where"], v["detail"][:400]))
            if len(self.viol) > 8:
                print("  ... %d more" % (len(self.viol) - 8))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            sys.exit(1)
        if self.broken:
            for b in self.broken[:3]:
                print("ANALYSIS-BROKEN: " + b)
            sys.exit(3)
        if self.obl < min_obl:
            print("ANALYSIS-BROKEN: only %d obligations (expected at least %d)" % (self.obl, min_obl))
            sys.exit(3)
        sys.exit(0)

    def viol_json(self):
        return [{"instance": v["instance"], "where": v["where"], "detail": v["detail"][:2000]} for v in self.viol[:50]]


def write_evidence(pid, ev):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(p + ".tmp", p)


def load_known(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [(e["instance"], e["what"]) for e in json.load(open(p))["known"] if e["property"] == pid]


def main(pid, rule, body, min_obl=1, assumptions=()):
    """run body(check) and report"""
    c = Check(pid, rule)
    c.assumptions = list(assumptions)
    c.guarded(lambda: body(c))
    c.finish(min_obl)
