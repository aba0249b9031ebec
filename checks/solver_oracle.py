"""Shared by the checks of the linear solvers: symbolic options, the opaque user
accumulation and the reference solution."""
from fw import *  # noqa

NAMES = ("clip", "mindiag", "lr", "damp", "lo", "hi", "good", "bad")
BOOLS = ("ldlt", "full", "sq", "half", "norm", "log")


def boolvar(name):
    return dd.mk(dd.mkvar(("bool", name), ("false", "true"), name), [F, T])


DEFAULT = {"clip": 0, "mindiag": 0, "lr": V("lr"), "damp": V("damp", "+"), "lo": V("lo", "+"), "hi": V("hi", "+"), "good": V("good", "+"),
           "bad": V("bad", "+"), "ldlt": T, "full": T, "sq": T, "half": F, "norm": F, "log": None}


def opts(**kw):
    """arguments of a solver root; a name without value is unknown"""
    d = dict(DEFAULT)
    d["log"] = boolvar("log")
    d.update(kw)
    vals = [d[n] for n in NAMES]
    return [Arr("opt", 8, vals=vals)] + [d[b] for b in BOOLS]


def user(p, n=2):
    """cost, residual count, gradient and Hessian the user's function adds at p"""
    p = tuple(p) if n > 1 else (p[0], alg.const(0))
    cost = alg.call("u_c", p)
    cnt = alg.call("u_n", p, isint=True)
    g = [alg.call("u_g", (alg.const(i),) + p) for i in range(n)]
    H = [[alg.call("u_h", (alg.const(i), alg.const(j)) + p) for j in range(n)] for i in range(n)]
    return cost, cnt, g, H


def valid(cost, cnt):
    return land(cmp_lt(0, cnt), lnot(cmp_eq(cost, V("DBL_MAX", "+"))))


def sym(H):
    n = len(H)
    return [[H[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]


def solution(H, b):
    """solution of H x = b by cofactors; also the determinant"""
    n = len(b)

    def det(M):
        if len(M) == 1:
            return M[0][0]
        s = alg.const(0)
        for j in range(len(M)):
            t = M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]])
            s = s + t if j % 2 == 0 else s - t
        return s
    D = det(H)
    x = []
    for k in range(n):
        x.append(det([r[:k] + [b[i]] + r[k + 1:] for i, r in enumerate(H)]) / D)
    return x, D


def positive(S):
    """all pivots (ratios of leading minors) are positive"""
    r, prev = T, alg.const(1)
    for j in range(1, len(S) + 1):
        D = solution([row[:j] for row in S[:j]], S[0][:j])[1]
        r = land(r, cmp_lt(0, D / prev))
        prev = D
    return r
