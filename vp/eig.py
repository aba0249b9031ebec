"""Contracts of the Eigen kernels that are not analysed instruction by
instruction: the in-place Cholesky kernels, the blocked triangular solver, and
memory allocation.  Each contract states the mathematical result on the
symbolic entries; pivoting is immaterial for it and is taken as the identity."""
import re
import alg
import dd
from alg import R
from dd import T, F, Ptr, UNDEF, leaf, num, mapn, ite, land, lor, lnot


def ptr_of(n):
    if n.var is None and isinstance(n.val, Ptr):
        return n.val
    ps = [x for x in dd.leaves(n) if isinstance(x, Ptr) and x.base != "null"]
    if len(set(ps)) == 1:
        return ps[0]
    from interp import AnalysisError
    raise AnalysisError("gated pointer %s" % n)


def const_of(n):
    vals = [x for x in dd.leaves(n)]
    if len(vals) == 1 and isinstance(vals[0], R) and vals[0].is_const():
        return int(vals[0].cval())
    from interp import AnalysisError
    raise AnalysisError("symbolic size %s" % n)


F64 = {"k": "f", "w": 64, "sz": 8}
F32 = {"k": "f", "w": 32, "sz": 4}
I64 = {"k": "i", "w": 64, "sz": 8}
I32 = {"k": "i", "w": 32, "sz": 4}
P = {"k": "p", "w": 64, "sz": 8}


class Mat:
    """view of an Eigen matrix object of type text ty at pointer p"""

    def __init__(self, it, mem, p, ty):
        self.it = it
        m = re.match(r"\s*(?:const )?Eigen::(Matrix|Transpose)<(.*)>\s*&?$", ty.strip())
        if not m:
            from interp import AnalysisError
            raise AnalysisError("matrix type %s" % ty)
        self.t = m.group(1) == "Transpose"
        if self.t:
            p = ptr_of(it.load(mem, leaf(p), P))
            m = re.match(r"\s*(?:const )?Eigen::(Matrix)<(.*)>\s*(?:const)?$", m.group(2).strip())
        sc, r, c = [x.strip() for x in m.group(2).split(",")[:3]]
        opt = int(m.group(2).split(",")[3])
        self.f = F32 if sc == "float" else F64
        r, c = int(r), int(c)
        if r == -1 or c == -1:
            self.data = ptr_of(it.load(mem, leaf(p), P))
            o = p.off + 8
            if r == -1:
                r = const_of(it.load(mem, leaf(Ptr(p.base, o)), I64))
                o += 8
            if c == -1:
                c = const_of(it.load(mem, leaf(Ptr(p.base, o)), I64))
        else:
            self.data = p
        self.rows, self.cols, self.rm = r, c, bool(opt & 1)

    def addr(self, i, j):
        if self.t:
            i, j = j, i
        k = i * self.cols + j if self.rm else j * self.rows + i
        return leaf(Ptr(self.data.base, self.data.off + k * self.f["sz"]))

    def get(self, mem, i, j):
        return self.it.load(mem, self.addr(i, j), self.f)

    def set(self, mem, i, j, v):
        return self.it.store(mem, self.addr(i, j), v, self.f)


def split_targs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "<" or ch == "(":
            d += 1
        if ch == ">" or ch == ")":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def params(full):
    """parameter types of a demangled function"""
    i = len(full) - 1
    while full[i] != ")":
        i -= 1
    d, j = 0, i
    while j >= 0:
        if full[j] in ")>":
            d += 1
        if full[j] in "(<":
            d -= 1
            if d == 0:
                break
        j -= 1
    return split_targs(full[j + 1:i])


def ar(op, a, b):
    return mapn(lambda x, y: it_arith(op, x, y), [a, b], ("eig", op))


def it_arith(op, x, y):
    if not isinstance(x, R) or not isinstance(y, R):
        return UNDEF
    try:
        return {"+": alg.add, "-": alg.sub, "*": alg.mul, "/": alg.div}[op](x, y)
    except ZeroDivisionError:
        return UNDEF


def sq(a):
    return mapn(lambda x: alg.sqrt(x) if isinstance(x, R) else UNDEF, [a], "eigsqrt")


def sym_read(it, mem, M, lower):
    n = M.rows
    A = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            A[i][j] = A[j][i] = M.get(mem, i, j) if lower else M.get(mem, j, i)
    return A


def name_of(A):
    return ",".join(str(x) for r in A for x in r)


def ldlt(it, name, dem, args, ins, mem, guard):
    ty = params(it.m.full[name])
    lower = "ldlt_inplace<1>" in dem
    M = Mat(it, mem, ptr_of(args[0]), ty[0])
    n = M.rows
    A = sym_read(it, mem, M, lower)
    L = [[num(0)] * n for _ in range(n)]
    D = [None] * n
    for j in range(n):
        d = A[j][j]
        for k in range(j):
            d = ar("-", d, ar("*", ar("*", L[j][k], L[j][k]), D[k]))
        D[j] = d
        for i in range(j + 1, n):
            s = A[i][j]
            for k in range(j):
                s = ar("-", s, ar("*", ar("*", L[i][k], L[j][k]), D[k]))
            L[i][j] = ar("/", s, d)
    for i in range(n):
        mem = M.set(mem, i, i, D[i])
        for j in range(i):
            mem = M.set(mem, i, j, L[i][j]) if lower else M.set(mem, j, i, L[i][j])
    tp = ptr_of(args[1])
    m = re.match(r"Eigen::Transpositions<(-?\d+)", ty[1])
    if m and int(m.group(1)) == -1:
        tp = ptr_of(it.load(mem, leaf(tp), P))
    for i in range(n):
        mem = it.store(mem, leaf(Ptr(tp.base, tp.off + 4 * i)), num(i), I32)
    it.seq += 1
    nm = "ldlt#%d" % len(it.decomps)
    okv = dd.mkvar(("bool", nm + ".ok"), ("false", "true"), nm + " succeeded")
    ok = dd.mk(okv, [F, T])
    sg = alg.var(nm + ".sign", "0+", True)
    mem = it.store(mem, args[3], num(sg), I32)
    it.decomps.append({"kind": "ldlt", "A": A, "D": D, "ok": ok, "sign": sg, "guard": guard, "lower": lower, "loc": ins.get("loc")})
    r = it.asnum(ok) if ins["t"]["w"] > 1 else ok
    return r, mem, guard


def llt(it, name, dem, args, ins, mem, guard):
    ty = params(it.m.full[name])
    lower = ", 1>" in dem
    M = Mat(it, mem, ptr_of(args[0]), ty[0])
    n = M.rows
    A = sym_read(it, mem, M, lower)
    L = [[num(0)] * n for _ in range(n)]
    for j in range(n):
        d = A[j][j]
        for k in range(j):
            d = ar("-", d, ar("*", L[j][k], L[j][k]))
        L[j][j] = sq(d)
        for i in range(j + 1, n):
            s = A[i][j]
            for k in range(j):
                s = ar("-", s, ar("*", L[i][k], L[j][k]))
            L[i][j] = ar("/", s, L[j][j])
    for i in range(n):
        for j in range(i + 1):
            mem = M.set(mem, i, j, L[i][j]) if lower else M.set(mem, j, i, L[i][j])
    nm = "llt#%d" % len(it.decomps)
    okv = dd.mkvar(("bool", nm + ".ok"), ("false", "true"), nm + " succeeded")
    ok = dd.mk(okv, [F, T])
    it.decomps.append({"kind": "llt", "A": A, "L": L, "ok": ok, "guard": guard, "lower": lower, "loc": ins.get("loc")})
    return ite(ok, num(-1), num(0)), mem, guard


def trsm(it, name, dem, args, ins, mem, guard):
    """triangular_solve_matrix<Scalar,Index,Side,Mode,Conj,TriStorage,OtherStorage,..>::run"""
    m = re.search(r"triangular_solve_matrix<(.*)>::run", dem)
    ta = split_targs(m.group(1))
    side, mode = int(ta[2]), int(ta[3])
    trm, orm = int(ta[5]) & 1, int(ta[6]) & 1
    f = F32 if ta[0] == "float" else F64
    n, k = const_of(args[0]), const_of(args[1])
    tri, ts = ptr_of(args[2]), const_of(args[3])
    if len(args) == 8:
        oth, os_ = ptr_of(args[4]), const_of(args[6])
    else:
        oth, os_ = ptr_of(args[4]), const_of(args[5])

    def tget(i, j):
        o = i * ts + j if trm else j * ts + i
        return it.load(mem, leaf(Ptr(tri.base, tri.off + o * f["sz"])), f)

    def oaddr(i, j):
        o = i * os_ + j if orm else j * os_ + i
        return leaf(Ptr(oth.base, oth.off + o * f["sz"]))
    lower, unit = mode & 1, mode & 4
    if side != 1:
        return None
    for c in range(k):
        order = range(n) if lower else range(n - 1, -1, -1)
        x = {}
        for i in order:
            s = it.load(mem, oaddr(i, c), f)
            for j in x:
                s = ar("-", s, ar("*", tget(i, j), x[j]))
            if not unit:
                s = ar("/", s, tget(i, i))
            x[i] = s
        for i in order:
            mem = it.store(mem, oaddr(i, c), x[i], f)
    return None_result(ins), mem, guard


def scalar_arg(it, mem, a, f):
    """argument passed by value or by const reference"""
    if any(isinstance(x, Ptr) for x in dd.leaves(a)):
        return it.load(mem, a, f)
    return a


class Raw:
    """raw strided block"""

    def __init__(self, it, p, stride, rowmajor, f):
        self.it, self.p, self.s, self.rm, self.f = it, p, stride, rowmajor, f

    def at(self, i, j):
        o = i * self.s + j if self.rm else j * self.s + i
        return leaf(Ptr(self.p.base, self.p.off + o * self.f["sz"]))

    def get(self, mem, i, j):
        return self.it.load(mem, self.at(i, j), self.f)


def accumulate(it, mem, res, i, j, terms, alpha, f):
    v = it.load(mem, res.at(i, j), f)
    for a, b in terms:
        v = ar("+", v, ar("*", alpha, ar("*", a, b)))
    return it.store(mem, res.at(i, j), v, f)


def gemm(it, name, dem, args, ins, mem, guard):
    ta = split_targs(re.search(r"general_matrix_matrix_product<(.*)>::run", dem).group(1))
    f = F32 if ta[1] == "float" else F64
    n, m_, k = [const_of(a) for a in args[:3]]
    A = Raw(it, ptr_of(args[3]), const_of(args[4]), int(ta[2]) & 1, f)
    B = Raw(it, ptr_of(args[5]), const_of(args[6]), int(ta[5]) & 1, f)
    C = Raw(it, ptr_of(args[7]), const_of(args[9]), int(ta[7]) & 1, f)
    al = scalar_arg(it, mem, args[10], f)
    for i in range(n):
        for j in range(m_):
            mem = accumulate(it, mem, C, i, j, [(A.get(mem, i, l), B.get(mem, l, j)) for l in range(k)], al, f)
    return None_result(ins), mem, guard


def trmm(it, name, dem, args, ins, mem, guard):
    ta = split_targs(re.search(r"product_triangular_matrix_matrix<(.*)>::run", dem).group(1))
    f = F32 if ta[0] == "float" else F64
    mode, left = int(ta[2]), ta[3] == "true"
    n, m_, k = [const_of(a) for a in args[:3]]
    A = Raw(it, ptr_of(args[3]), const_of(args[4]), int(ta[4]) & 1, f)
    B = Raw(it, ptr_of(args[5]), const_of(args[6]), int(ta[6]) & 1, f)
    C = Raw(it, ptr_of(args[7]), const_of(args[9]), int(ta[8]) & 1, f)
    al = scalar_arg(it, mem, args[10], f)

    def tri(X, i, j):
        if i == j and mode & 4:
            return num(1)
        if i == j and mode & 8:
            return num(0)
        if i != j and (i > j) != bool(mode & 1):
            return num(0)
        return X.get(mem, i, j)
    for i in range(n):
        for j in range(m_):
            mem = accumulate(it, mem, C, i, j, [(tri(A, i, l) if left else A.get(mem, i, l), B.get(mem, l, j) if left else tri(B, l, j))
                                                for l in range(k)], al, f)
    return None_result(ins), mem, guard


def syrk(it, name, dem, args, ins, mem, guard):
    ta = split_targs(re.search(r"general_matrix_matrix_triangular_product<(.*)>::run", dem).group(1))
    f = F32 if ta[1] == "float" else F64
    n, k = [const_of(a) for a in args[:2]]
    A = Raw(it, ptr_of(args[2]), const_of(args[3]), int(ta[2]) & 1, f)
    B = Raw(it, ptr_of(args[4]), const_of(args[5]), int(ta[5]) & 1, f)
    C = Raw(it, ptr_of(args[6]), const_of(args[8]), int(ta[7]) & 1, f)
    al = scalar_arg(it, mem, args[9], f)
    lower = int(ta[9]) & 1
    for i in range(n):
        for j in range(n):
            if i == j or (i > j) == bool(lower):
                mem = accumulate(it, mem, C, i, j, [(A.get(mem, i, l), B.get(mem, l, j)) for l in range(k)], al, f)
    return None_result(ins), mem, guard


def None_result(ins):
    return None if ins["t"]["k"] == "v" else leaf(UNDEF)


def alloc(it, name, dem, args, ins, mem, guard):
    it.heap += 1
    b = "heap:%d" % it.heap
    mem = dict(mem)
    mem.pop(b, None)
    return leaf(Ptr(b, 0)), mem, guard


def calloc(it, name, dem, args, ins, mem, guard):
    v, mem, guard = alloc(it, name, dem, args, ins, mem, guard)
    n = const_of(args[0]) * const_of(args[1])
    return v, it.memset0(mem, v.val, n), guard


def free(it, name, dem, args, ins, mem, guard):
    return None, mem, guard


def blocking(it, name, dem, args, ins, mem, guard):
    return None_result(ins), mem, guard


# Sparse matrices and Eigen::SimplicialLDLT.  The value of a sparse matrix object
# is one abstract quantity kept in a shadow cell; a decomposition is known by the
# matrix and shift it was computed from, its outcome and results are
# uninterpreted functions of those.

def shadow(p):
    return leaf(Ptr("sparse:" + p.base, p.off))


SHIFT, SCALE = 168, 176


def sp_compute(it, name, dem, args, ins, mem, guard):
    o, a = ptr_of(args[0]), ptr_of(args[1])
    A = it.load(mem, shadow(a), F64)
    sh = it.load(mem, leaf(Ptr(o.base, o.off + SHIFT)), F64)
    sc = it.load(mem, leaf(Ptr(o.base, o.off + SCALE)), F64)
    D = mapn(lambda x, y, z: alg.call("sp_ldlt", (x, y, z)), [A, sh, sc], "sp_ldlt")
    mem = it.store(mem, shadow(o), D, F64)
    it.decomps.append({"kind": "simplicial", "A": A, "D": D, "guard": guard, "loc": ins.get("loc"), "dem": dem})
    return args[0], mem, guard


def sp_info(it, name, dem, args, ins, mem, guard):
    D = it.load(mem, shadow(ptr_of(args[0])), F64)
    return mapn(lambda d: alg.call("sp_info", (d,), isint=True), [D], "sp_info"), mem, guard


def sp_solve(it, name, dem, args, ins, mem, guard):
    ty = params(it.m.full[name])
    ta = [re.sub(r"^Eigen::MatrixBase<(.*)>\s*(const)?\s*&?$", r"\1", t) for t in ty]
    D = it.load(mem, shadow(ptr_of(args[0])), F64)
    b, x = Mat(it, mem, ptr_of(args[1]), ta[0]), Mat(it, mem, ptr_of(args[2]), ta[1])
    for j in range(b.cols):
        col = [b.get(mem, i, j) for i in range(b.rows)]
        for i in range(b.rows):
            v = mapn(lambda d, *c: alg.call("sp_solve", (alg.const(i), d) + c), [D] + col, ("sp_solve", i))
            mem = x.set(mem, i, j, v)
    return None_result(ins), mem, guard


def sp_dim(it, name, dem, args, ins, mem, guard):
    p = ptr_of(args[0])
    d = getattr(it, "sparse_dim", {}).get(p.base, num(2))
    return d, mem, guard


def sp_identity(it, name, dem, args, ins, mem, guard):
    return None_result(ins), it.store(mem, shadow(ptr_of(args[0])), num(alg.call("sp_identity", ())), F64), guard


def sp_copy(it, name, dem, args, ins, mem, guard):
    """construction, assignment: the value of the source, or the result of a solve expression"""
    d = ptr_of(args[0])
    full = it.m.full[name]
    r = None_result(ins) if ins["t"]["k"] == "v" else args[0]
    if len(args) == 2 and "Eigen::Solve<" in full:
        s = ptr_of(args[1])
        D = it.load(mem, shadow(ptr_of(it.load(mem, leaf(Ptr(s.base, s.off + 8)), P))), F64)
        B = it.load(mem, shadow(ptr_of(it.load(mem, leaf(Ptr(s.base, s.off + 16)), P))), F64)
        v = mapn(lambda x, y: alg.call("sp_result", (x, y)), [D, B], "sp_result")
        return r, it.store(mem, shadow(d), v, F64), guard
    if len(args) == 2 and any(isinstance(x, Ptr) for x in dd.leaves(args[1])):
        if re.search(r"Eigen::(CwiseBinaryOp|Product|CwiseUnaryOp|Transpose)<", full.split("(", 1)[-1]):
            return None
        return r, it.store(mem, shadow(d), it.load(mem, shadow(ptr_of(args[1])), F64), F64), guard
    return r, it.store(mem, shadow(d), num(alg.call("sp_zero", ())), F64), guard


def sp_drop(it, name, dem, args, ins, mem, guard):
    return None_result(ins), mem, guard


SPARSE_OPAQUE = (r"^Eigen::Simplicial(CholeskyBase|LDLT|LLT|Cholesky)<.*::(compute|info|_solve_impl|factorize|analyzePattern)",
                 r"^Eigen::SparseMatrix<")
SPARSE = [
    (re.compile(r"^Eigen::Simplicial\w+<.*>::compute(<.*>)?$"), sp_compute),
    (re.compile(r"^Eigen::Simplicial\w+<.*>::info$"), sp_info),
    (re.compile(r"^Eigen::Simplicial\w+<.*>::_solve_impl\b"), sp_solve),
    (re.compile(r"^Eigen::SparseMatrix<[^<>]*>::(rows|cols)$"), sp_dim),
    (re.compile(r"^Eigen::SparseMatrix<[^<>]*>::setIdentity$"), sp_identity),
    (re.compile(r"^Eigen::SparseMatrix<[^<>]*>::(SparseMatrix|operator=)(<.*>)?$"), sp_copy),
    (re.compile(r"^Eigen::SparseMatrix<[^<>]*>::(~SparseMatrix|makeCompressed|finalize|reserve)(<.*>)?$"), sp_drop),
]

SUMMARIES = [
    (re.compile(r"^(malloc|operator new(\[\])?)$"), alloc),
    (re.compile(r"^calloc$"), calloc),
    (re.compile(r"^(free|operator delete(\[\])?)$"), free),
    (re.compile(r"^Eigen::internal::ldlt_inplace<.*::unblocked$"), ldlt),
    (re.compile(r"^Eigen::internal::llt_inplace<.*::(un)?blocked$"), llt),
    (re.compile(r"^Eigen::internal::triangular_solve_matrix<.*::run$"), trsm),
    (re.compile(r"^Eigen::internal::general_matrix_matrix_product<.*::run$"), gemm),
    (re.compile(r"^Eigen::internal::product_triangular_matrix_matrix<.*::run$"), trmm),
    (re.compile(r"^Eigen::internal::general_matrix_matrix_triangular_product<.*::run$"), syrk),
    (re.compile(r"^Eigen::internal::(evaluateProductBlockingSizesHeuristic|manage_caching_sizes|queryCacheSizes|computeProductBlockingSizes)"), blocking),
]
