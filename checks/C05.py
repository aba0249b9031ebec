"""Stop reasons are classified consistently as failure, success or convergence."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from optim_oracle import *  # noqa

RULE = ("for every stop reason the values of Succeeded() and Converged() found by constant propagation are those of the documented groups; the string literals "
        "that reach the stream on the path of that reason form a distinct description with the matching word, and no value read from an empty history reaches it")
REASONS = ("kOutOfMemory", "kSolverFailed", "kSystemHasNaNOrInf", "kSkipped", "kNone", "kMinError", "kMinRelError", "kMinDeltaNorm", "kMinGradNorm", "kMaxIters",
           "kMaxNoDecr", "kMaxConsecNoDecr", "kTimedOut", "kUserStopped")
FAIL = REASONS[:4]
CONV = REASONS[5:9]


def literal(m, p):
    g = m.globals.get(p.base[2:]) if isinstance(p, Ptr) and p.base.startswith("g:") else None
    if not g or not g["const"] or not isinstance(p.off, int):
        return None
    b = {}
    for x in g["cells"]:
        k = x["c"].get("i", x["c"].get("v"))
        if k is None:
            return None
        b[x["off"]] = int(k) & 255
    out, i = bytearray(), p.off
    while b.get(i, 0):
        out.append(b[i])
        i += 1
    return out.decode("utf-8", "replace")


def body(c):
    m = compile_client(c.work, "output.cpp", shards=8, opaque=eig.SPARSE_OPAQUE + OPAQUE)
    r = analyse(c, m, "vp_class_all", [OUT])
    w, seen = r.where(), set()
    for i, n in enumerate(REASONS):
        v = r.out(3 * i)
        c.oblige(n + ": distinct value", v.var is None and v.val not in seen, w, "value %s is used twice" % v)
        seen.add(v.val)
        c.equal(n + ": Succeeded()", r.out(3 * i + 1), num(int(n not in FAIL)), where=w)
        c.equal(n + ": Converged()", r.out(3 * i + 2), num(int(n in CONV)), where=w)
    texts, first = {}, {}
    for kind in ("desc", "desco"):
        for n in REASONS:
            r = analyse(c, m, "vp_%s_%s" % (kind, n), [], summaries=SUMS)
            w, mm = r.where(), r.m
            key = "%s%s" % (n, " with options" if kind == "desco" else "")
            done = events(r, "vpx_done")
            c.oblige(key + ": a description is produced", len(done) == 1 and done[0].guard is T and r.guard is T, w, "not returned on every path")
            lits, bad = [], None
            for e in r.it.events:
                if not any("StopReasonDescription" in fn for _, _, fn in e.loc or []):
                    continue
                for a in e.args:
                    for x in dd.leaves(a) if isinstance(a, dd.Node) else ():
                        t = literal(mm, x)
                        if t:
                            lits.append(t)
                        if x is UNDEF and e.guard is not F:
                            bad = bad or loc_str(e.loc)
            c.oblige(key + ": no value of an empty history is read", bad is None, bad or w, "an undefined value reaches the description")
            text = "".join(lits)
            want, other = ("(failure)", "(success)") if n in FAIL else ("(success)", "(failure)")
            c.oblige(key + ": the description has the word " + want, text.count(want) == 1 and other not in text, w, repr(text))
            heads = [o for o, h in first.items() if h and h in text and o != n]
            c.oblige(key + ": the description is not that of another reason", not heads, w, "%r also describes %s" % (text, heads))
            first.setdefault(n, lits[0] if lits else "")
            c.oblige(key + ": the description is distinct", text not in texts or texts[text] == n, w, "%r is also that of %s" % (text, texts.get(text)))
            texts[text] = n
    c.notes["descriptions"] = len(texts)


if __name__ == "__main__":
    main("C05", RULE, body, min_obl=100, assumptions=["streams and strings of the standard library keep what is inserted"])
