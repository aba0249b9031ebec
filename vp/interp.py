"""Forward dataflow over normalised IR: every SSA value and memory cell gets a
gated normal-form value (see dd.py / alg.py).  States are merged at every join
point, loops whose trip count is decided by constants are unrolled, everything
else is cut at a stated bound and reported."""
import json
import re
from fractions import Fraction
import alg
import dd
from alg import R
from dd import (T, F, Node, Ptr, UNDEF, INF, NINF, NAN, leaf, num, ite, land, lor, lnot, mapn)


class AnalysisError(Exception):
    """the analysed program uses something the analysis does not understand"""


class Obj:
    """memory object: cells {offset: (size, value)}; unknown cells come from init(off,size,type)"""
    __slots__ = ("cells", "epoch", "fill")

    def __init__(self, cells=None, epoch=0, fill=None):
        self.cells = cells if cells is not None else {}
        self.epoch = epoch   # version of the unknown background
        self.fill = fill or ()  # ranges (lo,hi) known to be zero-filled

    def copy(self):
        return Obj(dict(self.cells), self.epoch, self.fill)


class Event:
    __slots__ = ("guard", "name", "dem", "args", "res", "loc", "seq", "mem", "fn", "ctx")

    def __repr__(self):
        return "<%s(%s) when %s>" % (self.name, ", ".join(map(str, self.args)), self.guard)


MATHNAMES = set(alg.MATH) | {"fabs", "fmax", "fmin", "copysign", "abs", "trunc", "round"}
_INTR = re.compile(r"^llvm\.(\w+?)\.(f32|f64|f80)$")


PTRT = {"k": "p", "w": 64, "sz": 8}
STD_BASES = {"bad_array_new_length": "bad_alloc", "bad_alloc": "exception", "length_error": "logic_error", "invalid_argument": "logic_error",
             "out_of_range": "logic_error", "domain_error": "logic_error", "logic_error": "exception", "overflow_error": "runtime_error",
             "range_error": "runtime_error", "runtime_error": "exception", "bad_optional_access": "exception", "bad_variant_access": "exception"}
_TYPEIDS = {}


def gname(base):
    return base[2:] if base.startswith("g:") else base


def type_name(g):
    m = re.match(r"^_ZTISt(\d+)(\w+)$", g)
    return m.group(2) if m else g


def derives(a, b):
    """class with type information a is b or derives from it (standard exceptions)"""
    a, b = type_name(a), type_name(b)
    while a is not None:
        if a == b:
            return True
        a = STD_BASES.get(a)
    return False


def typeid(g):
    return _TYPEIDS.setdefault(g, len(_TYPEIDS) + 2)


class Module:
    def __init__(self, paths):
        """one file, or one per shard of the root functions"""
        self.shards, self.fns = [], {}
        if len(paths) > 1:
            self.shards = [Module([p]) for p in paths]
            for s in self.shards:
                self.fns.update({n: f for n, f in s.fns.items() if f["root"]})
            return
        with open(paths[0]) as f:
            d = json.load(f)
        self.fns = {f["name"]: f for f in d["functions"]}
        self.globals = d["globals"]
        self.dem = d["dem"]
        self.opaqued = d["opaqued"]
        self.full = d.get("full", {})

    def of(self, root):
        """the module that holds a root function"""
        for s in self.shards:
            if root in s.fns:
                return s
        return self

    def roots(self):
        return [n for n, f in self.fns.items() if f["root"]]


class Interp:
    serial = 0

    def __init__(self, module, summaries=None, max_unroll=64, names=None):
        self.m = module
        self.max_unroll = max_unroll
        self.events = []
        self.seq = 0
        self.summaries = summaries or []
        self.loops = []          # solved loops
        self.stores = []         # (guard, base, off, size, value, loc) in order
        self.mu_sign, self.mu_int = {}, {}
        self.undecided = 4
        self.cut = None          # (function, head, rounds) -> leave the loop here (bounded analysis)
        self.cut_guard = F
        self.drain = 0           # in a cut loop: the next call ends the analysis
        self.nest = 0            # loops around the current position
        self.watch = {"out"}
        self.head_hook = None
        self.fixed_head = None
        self.peel = None
        self.names = names or {}  # (base, off) -> readable name
        self.objsign = {}
        self.heap = 0
        self.alloc = 0
        self.unreach = F
        self.raised = []        # exceptions leaving the root: (condition, type, memory, location)
        self.stats = {"instructions": 0, "blocks": 0, "calls": 0}
        self.lines = set()
        self.functions = set()
        self.depth = 0
        self.ret_events = []
        self.init_hook = None
        self.live = {}

    # ------------------------------------------------------------ values
    def cval(self, c):
        if "v" in c:
            return self.env[c["v"]]
        if "i" in c:
            v = int(c["i"])
            if c["w"] == 1:
                return T if v else F
            return num(v)
        if "f" in c:
            s = c["f"]
            if s == "nan":
                return leaf(NAN)
            if s == "inf":
                return leaf(INF)
            if s == "-inf":
                return leaf(NINF)
            return leaf(alg.snap_const(float.fromhex(s)))
        if "null" in c:
            return leaf(Ptr("null", 0))
        if "undef" in c:
            t = c["t"]
            if t["k"] in ("s", "a", "V"):
                return self.splat(t, leaf(UNDEF))
            return leaf(UNDEF)
        if "zero" in c:
            return self.splat(c["zero"], None)
        if "fn" in c:
            return leaf(Ptr("fn:" + c["fn"], 0))
        if "g" in c:
            return leaf(Ptr("g:" + c["g"], 0))
        if "agg" in c:
            return tuple(self.cval(x) for x in c["agg"])
        if "cgep" in c:
            b = self.cval(c["cgep"])
            return mapn(lambda p: Ptr(p.base, p.off + c["off"]) if isinstance(p, Ptr) else UNDEF, [b], ("cgep", c["off"]))
        if "ce" in c:
            if c["ce"] in ("ptrtoint", "inttoptr", "bitcast"):
                return self.cval(c["ops"][0])
        raise AnalysisError("constant %r" % (c,))

    def splat(self, t, v):
        if t["k"] == "s":
            return tuple(self.splat(f, v) for f in t["f"])
        if t["k"] in ("a", "V"):
            return tuple(self.splat(t["e"], v) for _ in range(t["n"]))
        if v is not None:
            return v
        if t["k"] == "p":
            return leaf(Ptr("null", 0))
        if t["k"] == "i" and t["w"] == 1:
            return F
        return num(0)

    # ------------------------------------------------------------ memory
    def initial(self, base, off, t, epoch):
        """content of a cell never written by the analysed code"""
        if base.startswith("g:"):
            g = self.m.globals.get(base[2:])
            if g and g["const"]:
                for c in g["cells"]:
                    if c["off"] == off:
                        v = self.cval(c["c"])
                        return v
        if self.init_hook:
            v = self.init_hook(base, off, t, epoch)
            if v is not None:
                return v
        nm = self.names.get((base, off))
        if nm is None:
            nm = "%s[%d]" % (base, off)
        if base.startswith("alloca:") or base.startswith("heap:"):
            if epoch == 0:
                return leaf(UNDEF) if not base.startswith("heap:") else num(alg.var("uninit:" + nm))
        if epoch:
            nm += "@%s" % epoch
        if t["k"] == "p":
            return leaf(Ptr("*" + nm, 0))
        if t["k"] == "i":
            sign = "0+" if t["w"] == 8 else self.objsign.get((base, off))
            return num(alg.var(nm, sign, True))
        return num(alg.var(nm, self.objsign.get((base, off))))

    def obj(self, mem, base):
        o = mem.get(base)
        if o is None:
            o = Obj()
        return o

    def load_leaf(self, mem, p, t):
        if not isinstance(p, Ptr):
            return leaf(UNDEF)
        if p.base == "null":
            return leaf(UNDEF)
        if not isinstance(p.off, int):
            raise AnalysisError("load at symbolic offset %s" % (p,))
        o = self.obj(mem, p.base)
        return self.read_cell(o, p.base, p.off, t)

    def read_cell(self, o, base, off, t):
        sz = t["sz"]
        c = o.cells.get(off)
        if c is not None and c[0] == sz:
            return self.retype(c[1], t)
        if c is not None and c[0] > sz:
            v = c[1]
            if isinstance(v, Node) and v.var is None and isinstance(v.val, R) and v.val.is_const() and v.val.cval().denominator == 1:
                iv = int(v.val.cval()) & ((1 << (8 * c[0])) - 1)
                iv &= (1 << (8 * sz)) - 1
                return self.fromint(iv, t)
            if v.var is None and isinstance(v.val, Cat):
                return self.cat_read(v.val, 0, t)
            if t["k"] == "i":
                return v  # low bits of a small value
        for (lo, hi) in o.fill:
            if lo <= off and off + sz <= hi and not self.overlaps(o, off, sz):
                return leaf(Ptr("null", 0)) if t["k"] == "p" else num(0)
        if self.overlaps(o, off, sz):
            # assemble from pieces
            pieces = []
            pos = off
            while pos < off + sz:
                c = o.cells.get(pos)
                if c is not None and pos + c[0] <= off + sz:
                    pieces.append((pos - off, c[0], c[1]))
                    pos += c[0]
                    continue
                hit = None
                for q, (s2, v2) in o.cells.items():
                    if q < pos < q + s2 or q == pos:
                        hit = (q, s2, v2)
                if hit is not None:
                    q, s2, v2 = hit
                    if isinstance(v2, Node) and v2.var is None and isinstance(v2.val, R) and v2.val.is_const() and v2.val.cval().denominator == 1:
                        n = min(q + s2, off + sz) - pos
                        iv = (int(v2.val.cval()) >> (8 * (pos - q))) & ((1 << (8 * n)) - 1)
                        pieces.append((pos - off, n, num(iv)))
                        pos += n
                        continue
                    if isinstance(v2, Node) and v2.var is None and isinstance(v2.val, Cat):
                        r = self.cat_read(v2.val, pos - q, t)
                        if r is not None:
                            return r
                    return leaf(UNDEF)
                z = False
                for (lo, hi) in o.fill:
                    if lo <= pos < hi:
                        z = True
                pieces.append((pos - off, 1, num(0) if z else leaf(UNDEF)))
                pos += 1
            if all(v.var is None and isinstance(v.val, R) and v.val.is_const() for _, _, v in pieces):
                iv = 0
                for po, s, v in pieces:
                    cv = v.val.cval()
                    if cv.denominator != 1:
                        return leaf(Cat(tuple(pieces)))
                    iv |= (int(cv) & ((1 << (8 * s)) - 1)) << (8 * po)
                return self.fromint(iv, t)
            # a widened value whose upper bytes are zero
            if pieces[0][0] == 0 and all(v.var is None and isinstance(v.val, R) and v.val.is_const() and v.val.cval() == 0 for _, _, v in pieces[1:]):
                return pieces[0][2]
            return leaf(Cat(tuple(pieces)))
        return self.initial(base, off, t, o.epoch)

    def cat_read(self, cat, off, t):
        for po, s, v in cat.pieces:
            if po == off and s == t["sz"]:
                return self.retype(v, t)
        return None

    def fromint(self, iv, t):
        if t["k"] == "f":
            import struct
            if t["w"] == 64:
                return self.cval({"f": struct.unpack("<d", struct.pack("<Q", iv))[0].hex()})
            return self.cval({"f": struct.unpack("<f", struct.pack("<I", iv))[0].hex()})
        if t["k"] == "p":
            return leaf(Ptr("null", 0)) if iv == 0 else leaf(UNDEF)
        w = t["w"]
        if iv >= 1 << (w - 1) and w > 1:
            iv -= 1 << w
        return num(iv)

    def retype(self, v, t):
        if t["k"] == "p" and isinstance(v, Node):
            def f(x):
                if isinstance(x, R) and x.is_const() and x.cval() == 0:
                    return Ptr("null", 0)
                return x
            return mapn(f, [v], "toptr")
        return v

    def overlaps(self, o, off, sz):
        for q in range(off - 31, off + sz):
            c = o.cells.get(q)
            if c is not None and q + c[0] > off and q < off + sz:
                return True
        return False

    def load(self, mem, pn, t):
        if t["k"] in ("s", "a", "V"):
            outs = []
            if t["k"] == "s":
                for f, o in zip(t["f"], t["o"]):
                    outs.append(self.load(mem, self.padd(pn, o), f))
            else:
                es = t["e"]["sz"]
                for i in range(t["n"]):
                    outs.append(self.load(mem, self.padd(pn, i * es), t["e"]))
            return tuple(outs)
        if pn.var is None:
            return self.load_leaf(mem, pn.val, t)
        cache = {}

        def f(p):
            if p not in cache:
                cache[p] = self.load_leaf(mem, p, t)
            return cache[p]
        Interp.serial += 1   # memory differs between loads: never share results
        return mapn(f, [pn], ("load", Interp.serial))

    def padd(self, pn, k):
        if k == 0:
            return pn
        return mapn(lambda p: Ptr(p.base, p.off + k) if isinstance(p, Ptr) else UNDEF, [pn], ("padd", k))

    def store(self, mem, pn, v, t):
        if isinstance(v, tuple):
            if t["k"] == "s":
                for f, o, x in zip(t["f"], t["o"], v):
                    mem = self.store(mem, self.padd(pn, o), x, f)
            else:
                es = t["e"]["sz"]
                for i, x in enumerate(v):
                    mem = self.store(mem, self.padd(pn, i * es), x, t["e"])
            return mem
        mem = dict(mem)
        if pn.var is None:
            p = pn.val
            if not isinstance(p, Ptr) or p.base == "null":
                return mem
            if not isinstance(p.off, int):
                raise AnalysisError("store at symbolic offset %s" % (p,))
            self.write(mem, p.base, p.off, t["sz"], v)
            return mem
        for p in set(x for x in dd.leaves(pn) if isinstance(x, Ptr)):
            if p.base == "null":
                continue
            if not isinstance(p.off, int):
                raise AnalysisError("store at symbolic offset %s" % (p,))
            g = mapn(lambda x, p=p: x == p, [pn], ("is", p))
            o = self.obj(mem, p.base)
            old = self.read_cell(o, p.base, p.off, t)
            self.write(mem, p.base, p.off, t["sz"], ite(g, v, old))
        return mem

    def write(self, mem, base, off, sz, v):
        o = self.obj(mem, base).copy()
        for q in range(off - 31, off + sz):
            c = o.cells.get(q)
            if c is None:
                continue
            if q == off and c[0] == sz:
                continue
            if q + c[0] > off and q < off + sz:
                del o.cells[q]
                # keep the remaining parts of a constant cell
                cv = c[1]
                if isinstance(cv, Node) and cv.var is None and isinstance(cv.val, R) and cv.val.is_const() and cv.val.cval() == 0:
                    if q < off:
                        o.cells[q] = (off - q, num(0))
                    if q + c[0] > off + sz:
                        o.cells[off + sz] = (q + c[0] - off - sz, num(0))
        if isinstance(v, Node) and v.var is None and isinstance(v.val, Cat) and sz == sum(p[1] for p in v.val.pieces):
            o.cells.pop(off, None)
            for po, s, x in v.val.pieces:
                o.cells[off + po] = (s, x)
        else:
            o.cells[off] = (sz, v)
        mem[base] = o

    def memset0(self, mem, p, n):
        mem = dict(mem)
        o = self.obj(mem, p.base).copy()
        for q in list(o.cells):
            if p.off <= q < p.off + n:
                del o.cells[q]
        o.fill = o.fill + ((p.off, p.off + n),)
        mem[p.base] = o
        return mem

    def memcpy(self, mem, d, s, n):
        mem = dict(mem)
        so = self.obj(mem, s.base)
        do = self.obj(mem, d.base).copy()
        moved = []
        covered = [False] * n if n <= 65536 else None
        for q, (sz, v) in so.cells.items():
            if s.off <= q and q + sz <= s.off + n:
                moved.append((d.off + q - s.off, sz, v))
                for i in range(q - s.off, q - s.off + sz):
                    covered[i] = True
        fills = []
        for lo, hi in so.fill:
            a, b = max(lo, s.off), min(hi, s.off + n)
            if a < b:
                fills.append((a - s.off + d.off, b - s.off + d.off))
                for i in range(a - s.off, b - s.off):
                    covered[i] = True
        for q in list(do.cells):
            if q + do.cells[q][0] > d.off and q < d.off + n:
                del do.cells[q]
        do.fill = tuple((lo, hi) for lo, hi in do.fill if hi <= d.off or lo >= d.off + n) + tuple(fills)
        for q, sz, v in moved:
            do.cells[q] = (sz, v)
        # unknown source cells: alias them lazily
        if not all(covered):
            do.cells = LazyCells(do.cells)
            do.cells.lazy = getattr(so.cells, "lazy", []) and list(getattr(so.cells, "lazy")) or []
            do.cells.lazy = [x for x in getattr(self.obj(mem, d.base).cells, "lazy", [])] + [(d.off, n, s.base, s.off, so)]
        mem[d.base] = do
        return mem

    # ------------------------------------------------------------ running
    def run(self, name, args, mem=None):
        fn = self.m.fns[name]
        return self.run_fn(fn, args, dict(mem or {}), T)

    def prep(self, fn):
        if "_wto" in fn:
            return
        succ = {}
        for b, insts in enumerate(fn["blocks"]):
            t = insts[-1]
            if t["op"] in ("br", "invoke"):
                succ[b] = list(t.get("succ", []))
            elif t["op"] == "switch":
                succ[b] = [t["def"]] + [c[1] for c in t["cases"]]
            else:
                succ[b] = []
        fn["_succ"] = succ
        fn["_wto"] = wto(succ, 0)

    def run_fn(self, fn, args, mem, guard):
        self.prep(fn)
        self.depth += 1
        if self.depth > 40:
            raise AnalysisError("recursion in " + fn["name"])
        self.functions.add(fn["name"])
        saved = getattr(self, "env", None), getattr(self, "fn", None), getattr(self, "pending", None), getattr(self, "rets", None)
        self.env = {}
        self.fn = fn
        for i, a in enumerate(args):
            self.env[i] = a
        self.pending = {}
        self.rets = []
        self.pending[0] = [(guard, mem, {})]
        self.process(fn["_wto"])
        rets = self.rets
        self.env, self.fn, self.pending, self.rets = saved
        self.depth -= 1
        if not rets:
            return None, mem, F
        g, m = self.merge([(g, mm) for g, mm, _ in rets])
        v = None
        if rets[0][2] is not None:
            v = self.mergevals([(g_, x) for g_, _, x in rets])
        return v, m, g

    def mergevals(self, lst):
        if isinstance(lst[0][1], tuple):
            return tuple(self.mergevals([(g, x[i]) for g, x in lst]) for i in range(len(lst[0][1])))
        v = lst[-1][1]
        for g, x in reversed(lst[:-1]):
            v = dd.settle(ite(g, x, v))
        return v

    def merge(self, lst):
        if len(lst) == 1:
            return lst[0]
        G = F
        for g, _ in lst:
            G = lor(G, g)
        base_mem = lst[-1][1]
        out = dict(base_mem)
        bases = set()
        for _, m in lst:
            bases |= set(m)
        for b in bases:
            os_ = [m.get(b) for _, m in lst]
            if all(o is os_[0] for o in os_):
                continue
            # an object missing on one path keeps its initial content there
            out[b] = self.merge_obj(b, [(g, o if o is not None else Obj()) for (g, _), o in zip(lst, os_)])
        return G, out

    def merge_obj(self, base, lst):
        offs = {}
        for _, o in lst:
            for q, (sz, v) in o.cells.items():
                offs[q] = max(offs.get(q, 0), sz) if q in offs else sz
        for _, o in lst:
            pass
        eps = set(o.epoch for _, o in lst)
        last = lst[-1][1]
        if len(eps) > 1:
            # unknown backgrounds differ: name the merged background
            self.seq += 1
            res = Obj({}, "m%d" % self.seq, ())
        else:
            res = Obj({}, last.epoch, ())
        fills = set(o.fill for _, o in lst)
        if len(fills) == 1:
            res.fill = last.fill
        else:
            for _, o in lst:
                for lo, hi in o.fill:
                    pos = lo
                    # split the fill at known offsets, 8-byte granules
                    known = sorted(q for q in offs if lo <= q < hi)
                    while pos < hi:
                        nxt = [q for q in known if q > pos]
                        lim = nxt[0] if nxt else hi
                        if pos not in offs:
                            step = min(8 - (pos % 8) if pos % 8 else 8, lim - pos)
                            if pos % 8 and step > 4 and pos % 4 == 0:
                                step = 4
                            offs[pos] = step
                        pos = pos + offs[pos]
        if any(isinstance(o.cells, LazyCells) for _, o in lst):
            lz = [getattr(o.cells, "lazy", []) for _, o in lst]
            if all(l == lz[0] for l in lz):
                res.cells = LazyCells({})
                res.cells.lazy = lz[0]
        taken = []
        for q in sorted(offs):
            sz = offs[q]
            vals = []
            ty = None
            for g, o in lst:
                c = o.cells.get(q)
                if c is not None and isinstance(c[1], Node):
                    for lv in dd.leaves(c[1]):
                        if isinstance(lv, Ptr):
                            ty = "p"
            for g, o in lst:
                t = {"k": ty or "i", "w": 8 * sz, "sz": sz}
                c = o.cells.get(q)
                if c is not None and c[0] == sz:
                    vals.append((g, c[1]))
                else:
                    vals.append((g, self.read_cell(o, base, q, t)))
            res.cells[q] = (sz, self.mergevals(vals))
        return res

    def process(self, elems):
        for e in elems:
            if isinstance(e, int):
                self.exec_block(e)
            else:
                self.loop(*e)

    # ---- loops
    def snapshot(self):
        return ({k: list(v) for k, v in self.pending.items()}, len(self.events), len(self.rets), dict(self.env),
                self.unreach, len(self.loops), len(self.stores))

    def restore(self, s):
        self.pending = {k: list(v) for k, v in s[0].items()}
        del self.events[s[1]:]
        del self.rets[s[2]:]
        self.env = dict(s[3])
        self.unreach = s[4]
        del self.loops[s[5]:]
        del self.stores[s[6]:]

    def loop(self, h, body):
        """Loops whose number of rounds is decided by constants are peeled; any
        other loop is solved to a fixpoint whose head state carries unknowns for
        everything the loop changes."""
        if not self.pending.get(h):
            return
        self.nest += 1
        try:
            self.loop1(h, body)
        finally:
            self.nest -= 1

    def loop1(self, h, body):
        snap = self.snapshot()
        undecided = 0
        g_in = F
        for x in self.pending[h]:
            g_in = lor(g_in, x[0])
        for it in range(self.max_unroll):
            self.exec_block(h)
            self.process(body)
            back = self.pending.get(h)
            if not back:
                return
            g = F
            for x in back:
                g = lor(g, x[0])
            if g is F:
                return
            if g is not g_in:
                undecided += 1
                g_in = g
                k = self.cut(self.fn["name"], h, undecided) if self.cut else False
                if k:
                    # runs that leave at the head, before anything else happens, are not cut
                    self.drain += 1
                    self.exec_block(h)
                    self.process(body)
                    self.drain -= 1
                    for x in self.pending.get(h) or []:
                        self.cut_guard = lor(self.cut_guard, x[0])
                    self.pending[h] = []
                    return
                if undecided > self.undecided and not self.cut:
                    break
        self.restore(snap)
        self.fixpoint(h, body)

    def mu(self, key, like):
        if isinstance(like, tuple):
            return tuple(self.mu(key + (i,), x) for i, x in enumerate(like))
        kinds = set()
        for lv in dd.leaves(like):
            kinds.add("b" if isinstance(lv, bool) else "p" if isinstance(lv, Ptr) else "n" if isinstance(lv, R) else "u")
        nm = "mu:" + ":".join(str(k) for k in key)
        if kinds & {"p"}:
            return leaf(Ptr("*" + nm, 0))
        if kinds <= {"b", "u"} and "b" in kinds:
            v = dd.mkvar(("bool", nm), ("false", "true"), nm)
            return dd.mk(v, [F, T])
        return num(alg.var(nm, self.mu_sign.get(key), self.mu_int.get(key, False)))

    def fixpoint(self, h, body):
        fname = self.fn["name"]
        snap = self.snapshot()
        ent = snap[0][h]
        g0, mem0 = self.merge([(g, m) for g, m, _ in ent])
        phi0 = {pid: self.mergevals([(g, ph[pid]) for g, _, ph in ent]) for pid in ent[0][2]}
        if g0 is F:
            self.pending[h] = []
            return
        pm, cm, bg = {}, {}, set()
        ints = {ins["id"]: ins["t"]["k"] == "i" for ins in self.fn["blocks"][h] if ins["op"] == "phi"}
        if isinstance(self.fixed_head, dict) and (fname, h) in self.fixed_head:
            pass
        for rnd in range(40):
            self.restore(snap)
            phis = {pid: pm.get(pid, v) for pid, v in phi0.items()}
            mem = dict(mem0)
            for b in bg:
                o = self.obj(mem, b).copy()
                o.cells, o.fill, o.epoch = {}, (), "%s:%d" % (fname[-12:], h)
                mem[b] = o
            for (b, off), (sz, v) in cm.items():
                self.write(mem, b, off, sz, v)
            if self.head_hook:
                g0x = self.head_hook(self, fname, h, g0, mem, phis) or g0
            else:
                g0x = g0
            self.pending[h] = [(g0x, mem, phis)]
            self.exec_block(h)
            self.process(body)
            back = self.pending.pop(h, [])
            self.pending[h] = []
            new = False
            for g, m, ph in back:
                if g is F:
                    continue
                for pid in phi0:
                    if pid in pm:
                        continue
                    if not self.same(ph[pid], phis[pid], g):
                        key = (fname[-20:], h, "phi%d" % pid)
                        self.mu_int[key] = ints.get(pid, False)
                        self.mu_sign[key] = self.induct_sign(phi0[pid], ph[pid], phis[pid])
                        pm[pid] = self.mu(key, phi0[pid] if not self.undefish(phi0[pid]) else ph[pid])
                        new = True
                for b, o in m.items():
                    ho = mem.get(b)
                    if ho is o or b in bg:
                        continue
                    if ho is None:
                        if b not in mem0 and (b.startswith("alloca:") or b.startswith("heap:")):
                            continue
                        ho = Obj()
                    if ho.epoch != o.epoch:
                        bg.add(b)
                        new = True
                        continue
                    offs = {q: c[0] for q, c in o.cells.items()}
                    for q, c in ho.cells.items():
                        offs.setdefault(q, c[0])
                    if o.fill != ho.fill:
                        for lo, hi in o.fill:
                            for q in range(lo, hi, 8):
                                if q not in offs and not any(z < q < z + offs[z] for z in range(q - 8, q) if z in offs):
                                    offs[q] = min(8, hi - q)
                    for q, sz in offs.items():
                        if (b, q) in cm:
                            continue
                        t = {"k": "i", "w": 8 * sz, "sz": sz}
                        c = o.cells.get(q)
                        hc = ho.cells.get(q)
                        if c is not None and self.anyptr(c[1]) or hc is not None and self.anyptr(hc[1]):
                            t = {"k": "p", "w": 64, "sz": 8}
                        v1 = self.read_cell(o, b, q, t)
                        v0 = self.read_cell(ho, b, q, t)
                        if not self.same(v1, v0, g):
                            key = (b[-24:], q, h)
                            e0 = self.read_cell(self.obj(mem0, b), b, q, t)
                            self.mu_sign[key] = self.induct_sign(e0, v1, v0)
                            self.mu_int[key] = self.intlike(e0) and self.intlike(v1)
                            cm[(b, q)] = (sz, self.mu(key, e0 if not self.undefish(e0) else v1))
                            new = True
            if not new:
                rec = {"fn": fname, "head": h, "entry": (g0, mem0, phi0), "state": (g0x, mem, phis), "back": back,
                       "loc": next((i.get("loc") for i in self.fn["blocks"][h] if i.get("loc")), None),
                       "blocks": count_blocks(body) + 1, "mu_cells": dict(cm), "mu_phis": dict(pm),
                       "nest": self.nest, "events": self.events[snap[1]:]}
                self.loops.append(rec)
                if self.peel:
                    k = self.peel(self, rec)
                    if k:
                        self.peel_loop(h, body, rec, k, snap)
                return
        raise AnalysisError("no fixpoint for loop %s:%d" % (fname, h))

    def peel_loop(self, h, body, rec, k, snap):
        """analyse k consecutive rounds starting from the solved (arbitrary) head state"""
        self.restore(snap)
        self.loops.append(rec)
        rec["rounds"] = []
        rec["round_events"] = [len(self.events)]
        self.pending[h] = [rec["state"]]
        for i in range(k):
            g, m = self.merge([(x[0], x[1]) for x in self.pending[h]])
            rec["rounds"].append((g, m))
            self.exec_block(h)
            self.process(body)
            rec["round_events"].append(len(self.events))
            if not self.pending.get(h):
                break
        if self.pending.get(h):
            g, m = self.merge([(x[0], x[1]) for x in self.pending[h]])
            rec["rounds"].append((g, m))
        self.pending[h] = []

    def anyptr(self, v):
        return isinstance(v, Node) and any(isinstance(x, Ptr) for x in dd.leaves(v))

    def undefish(self, v):
        return isinstance(v, Node) and all(x is UNDEF for x in dd.leaves(v))

    def intlike(self, v):
        return isinstance(v, Node) and all(
            isinstance(x, bool) or isinstance(x, R) and alg.p_isconst(x.den) and all(alg.KERNELS[k].isint for k in x.kernels())
            and all(Fraction(c).denominator == 1 for c in x.num.values()) for x in dd.leaves(v))

    def same(self, a, b, g):
        if isinstance(a, tuple):
            return all(self.same(x, y, g) for x, y in zip(a, b))
        if a is b:
            return True
        return land(g, lnot(mapn(lambda x, y: x is UNDEF or y is UNDEF and x is y or x == y, [a, b], "sameleaf"))) is F

    def induct_sign(self, e0, back, head):
        """non-negative start and only non-negative increments stays non-negative"""
        try:
            if not all(isinstance(x, R) and alg.sign_of(x) in ("0", "0+", "+") for x in dd.leaves(e0)):
                return None
            d = mapn(lambda x, y: alg.sub(x, y), [back, head], "indsub")
            for x, y in ((x, y) for x in dd.leaves(back) for y in [None]):
                pass
            if all(isinstance(x, R) and (alg.sign_of(x) in ("0", "0+", "+")) for x in dd.leaves(d)):
                return "0+"
            if all(isinstance(x, R) and alg.sign_of(x) in ("0", "0+", "+") for x in dd.leaves(back)):
                return "0+"
        except Exception:
            pass
        return None

    def goto(self, b, tgt, guard, mem):
        if guard is F:
            return
        phis = {}
        for ins in self.fn["blocks"][tgt]:
            if ins["op"] != "phi":
                break
            for blk, v in ins["in"]:
                if blk == b:
                    phis[ins["id"]] = self.cval(v)
                    break
        self.pending.setdefault(tgt, []).append((guard, mem, phis))

    def exec_block(self, b):
        pend = self.pending.get(b)
        self.pending[b] = []
        if not pend:
            return False
        guard, mem = self.merge([(g, m) for g, m, _ in pend])
        if guard is F:
            return False
        self.stats["blocks"] += 1
        insts = self.fn["blocks"][b]
        for pid in (pend[0][2] if pend else {}):
            self.env[pid] = self.mergevals([(g, ph[pid]) for g, _, ph in pend])
        self.guard = guard
        for ins in insts:
            op = ins["op"]
            if op == "phi":
                continue
            self.stats["instructions"] += 1
            if "loc" in ins:
                for f, l, fnm in ins["loc"]:
                    if "/tinyopt/" in f:
                        self.lines.add((f, l, fnm))
                        break
            if op == "br":
                s = ins["succ"]
                if "cond" in ins:
                    c = self.asbool(self.cval(ins["cond"]))
                    self.goto(b, s[0], land(guard, c), mem)
                    self.goto(b, s[1], land(guard, lnot(c)), mem)
                else:
                    self.goto(b, s[0], guard, mem)
                return True
            if op == "switch":
                c = self.cval(ins["cond"])
                rest = guard
                for cv, blk in ins["cases"]:
                    k = self.cval(cv)
                    eq = self.icmp("eq", c, k)
                    self.goto(b, blk, land(rest, eq), mem)
                    rest = land(rest, lnot(eq))
                self.goto(b, ins["def"], rest, mem)
                return True
            if op == "ret":
                v = self.cval(ins["ops"][0]) if ins["ops"] else None
                self.rets.append((guard, mem, v))
                return True
            if op == "unreachable":
                self.unreach = lor(self.unreach, guard)
                return True
            if op == "resume":
                self.raised.append((guard, self.pending_type(mem), mem, ins.get("loc")))
                return True
            if op in ("call", "invoke") and ins.get("callee") in ("__cxa_throw", "__cxa_rethrow"):
                self.throw(op, ins, b, guard, mem)
                return True
            if op in ("call", "invoke"):
                v, mem, g2 = self.do_call(ins, mem, guard)
                guard = g2
                self.guard = guard
                if "id" in ins:
                    self.env[ins["id"]] = v
                if guard is F:
                    return True
                if op == "invoke":
                    self.goto(b, ins["succ"][0], guard, mem)
                    return True
                continue
            if op == "load":
                self.env[ins["id"]] = self.load(mem, self.cval(ins["ops"][0]), ins["t"])
                if ins["t"]["k"] == "i" and ins["t"]["w"] == 1:
                    self.env[ins["id"]] = self.asbool(self.env[ins["id"]])
                continue
            if op == "store":
                v = self.cval(ins["ops"][0])
                pn = self.cval(ins["ops"][1])
                mem = self.store(mem, pn, v, ins["st"])
                if self.watch and pn.var is None and isinstance(pn.val, Ptr) and pn.val.base in self.watch:
                    self.stores.append((guard, pn.val.base, pn.val.off, ins["st"]["sz"], v, ins.get("loc")))
                continue
            if op == "landingpad":
                self.env[ins["id"]] = (leaf(Ptr("$exception", 8)), self.selector(ins, mem))
                continue
            self.env[ins["id"]] = self.pure(ins)
        raise AnalysisError("block without terminator")

    # Exceptions.  The type of the exception in flight is kept in a cell of its
    # own; only explicit throws raise, and only where the client was extracted
    # with its unwind edges is the handler visible.
    def pending_type(self, mem):
        return self.load(mem, leaf(Ptr("$exception", 0)), PTRT)

    def throw(self, op, ins, b, guard, mem):
        ty = self.pending_type(mem) if ins["callee"] == "__cxa_rethrow" else self.cval(ins["args"][1])
        e = Event()
        self.seq += 1
        e.guard, e.name, e.dem, e.args, e.seq = guard, "throw", "throw", [ty], self.seq
        e.loc, e.mem, e.fn, e.res = ins.get("loc"), mem, self.fn["name"], None
        self.events.append(e)
        if op == "invoke":
            self.goto(b, ins["succ"][1], guard, self.store(mem, leaf(Ptr("$exception", 0)), ty, PTRT))
        else:
            self.unreach = lor(self.unreach, guard)
            self.raised.append((guard, ty, mem, ins.get("loc")))

    def selector(self, ins, mem):
        def f(ty):
            if not isinstance(ty, Ptr):
                return UNDEF
            for c in ins["clauses"]:
                if c.get("null"):
                    return alg.const(1)
                if "g" in c and derives(gname(ty.base), c["g"]):
                    return alg.const(typeid(c["g"]))
            return alg.const(0)
        return mapn(f, [self.pending_type(mem)], ("selector", repr(ins["clauses"])))

    # ------------------------------------------------------------ instructions
    def asbool(self, n):
        def f(x):
            if isinstance(x, bool):
                return x
            if isinstance(x, R):
                if x.is_const():
                    return bool(int(x.cval()) & 1)
                return dd.sgn_test(x, {"<", ">"})
            return UNDEF
        return mapn(f, [n], "asbool")

    def asnum(self, n, signed=False):
        def f(x):
            if isinstance(x, bool):
                return alg.const((-1 if signed else 1) if x else 0)
            return x
        return mapn(f, [n], ("asnum", signed))

    def pure(self, ins):
        op = ins["op"]
        t = ins["t"]
        if op == "alloca":
            self.alloc += 1
            nm = "alloca:%s#%d" % (self.fn["name"][-24:], self.alloc)
            return leaf(Ptr(nm, 0))
        if op == "getelementptr":
            b = self.cval(ins["base"])
            off = ins["off"]
            vs = [(self.cval(v), s) for v, s in ins["var"]]

            def f(p, *ix):
                if not isinstance(p, Ptr):
                    return UNDEF
                o = p.off + off if isinstance(p.off, int) else alg.add(p.off, alg.const(off))
                for (_, s), x in zip(vs, ix):
                    if not isinstance(x, R):
                        return UNDEF
                    if x.is_const() and isinstance(o, int):
                        o += int(x.cval()) * s
                    else:
                        o = alg.add(alg.lift(o), alg.mul(x, alg.const(s)))
                        if o.is_const():
                            o = int(o.cval())
                return Ptr(p.base, o)
            return mapn(f, [b] + [v for v, _ in vs], ("gep", off, tuple(s for _, s in vs)))
        ops = [self.cval(o) for o in ins["ops"]]
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "frem"):
            if isinstance(ops[0], tuple):
                return tuple(mapn(lambda *a: self.farith(op, *a), list(z), op) for z in zip(*ops))
            return mapn(lambda *a: self.farith(op, *a), ops, op)
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            w = t.get("w", 0)
            if w == 1:
                a, b = self.asbool(ops[0]), self.asbool(ops[1])
                if op in ("and", "mul"):
                    return land(a, b)
                if op == "or":
                    return lor(a, b)
                return dd.lxor(a, b)
            return mapn(lambda a, b: self.iarith(op, a, b, w), [self.asnum(o) for o in ops], (op, w))
        if op in ("fcmp", "icmp"):
            if ins["ct"]["k"] == "V":
                return tuple(self.cmp1(op, ins["pred"], a, b) for a, b in zip(*ops))
            return self.cmp1(op, ins["pred"], ops[0], ops[1])
        if op == "select":
            c = self.asbool(ops[0]) if isinstance(ops[0], Node) else ops[0]
            return self.sel(c, ops[1], ops[2])
        if op in ("zext", "sext", "trunc", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "bitcast",
                  "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            if isinstance(ops[0], tuple):
                if op == "bitcast" and t["k"] in ("f", "i"):
                    if len(ops[0]) == 1:
                        return ops[0][0]
                    es = ins["ft"]["e"]["sz"]
                    return leaf(Cat(tuple((i * es, es, v) for i, v in enumerate(ops[0]))))
                return tuple(self.cast1(op, v, ins["ft"].get("e", ins["ft"]), t.get("e", t)) for v in ops[0])
            if op == "bitcast" and t["k"] == "V":
                v = ops[0]
                if v.var is None and isinstance(v.val, Cat) and len(v.val.pieces) == t["n"]:
                    return tuple(x for _, _, x in v.val.pieces)
                if v.var is None and isinstance(v.val, R) and v.val.is_const():
                    iv = self.bits(v.val, ins["ft"])
                    es = t["e"]["sz"]
                    return tuple(self.fromint((iv >> (8 * es * i)) & ((1 << (8 * es)) - 1), t["e"]) for i in range(t["n"]))
                raise AnalysisError("bitcast to vector of %s" % v)
            return self.cast1(op, ops[0], ins.get("ft", t), t)
        if op == "extractvalue":
            v = ops[0]
            for i in ins["idx"]:
                v = v[i]
            return v
        if op == "insertvalue":
            return self.ins(ops[0], ins["idx"], ops[1])
        if op == "extractelement":
            i = int(ops[1].val.cval())
            return ops[0][i]
        if op == "insertelement":
            i = int(ops[2].val.cval())
            l = list(ops[0])
            l[i] = ops[1]
            return tuple(l)
        if op == "shufflevector":
            al = list(ops[0]) + list(ops[1])
            return tuple(al[i] if i >= 0 else leaf(UNDEF) for i in ins["mask"])
        raise AnalysisError("instruction " + op)

    def ins(self, agg, idx, v):
        l = list(agg)
        if len(idx) == 1:
            l[idx[0]] = v
        else:
            l[idx[0]] = self.ins(l[idx[0]], idx[1:], v)
        return tuple(l)

    def sel(self, c, a, b):
        if isinstance(c, tuple):
            return tuple(self.sel(x, y, z) for x, y, z in zip(c, a, b))
        if isinstance(a, tuple):
            return tuple(self.sel(c, x, y) for x, y in zip(a, b))
        return dd.settle(ite(c, a, b))

    def bits(self, r, ft):
        import struct
        c = r.cval()
        if ft["k"] == "f":
            if ft["w"] == 64:
                return struct.unpack("<Q", struct.pack("<d", float(c)))[0]
            return struct.unpack("<I", struct.pack("<f", float(c)))[0]
        return int(c) & ((1 << ft["w"]) - 1)

    def cast1(self, op, v, ft, t):
        if op in ("freeze", "fpext", "addrspacecast"):
            return v
        if op == "fptrunc":
            return v
        if op == "trunc" and t["w"] == 1:
            return self.asbool(v)
        if ft["k"] == "i" and ft["w"] == 1:
            return self.asnum(v, op in ("sext", "sitofp"))

        def f(x):
            if isinstance(x, Cat):
                if op == "trunc":
                    for po, s, y in x.pieces:
                        if po == 0 and 8 * s == t["w"]:
                            return y
                if op == "bitcast":
                    return x
                return UNDEF
            if not isinstance(x, R):
                if op == "inttoptr" or op == "ptrtoint" or op == "bitcast":
                    return x
                if isinstance(x, Ptr):
                    return x
                return x if op in ("fptrunc", "fpext") else UNDEF
            if x.is_const():
                c = x.cval()
                if op in ("zext",):
                    if c.denominator == 1 and c < 0:
                        c = c + (1 << ft["w"])
                    return alg.const(c)
                if op == "uitofp" and c < 0:
                    return alg.const(c + (1 << ft["w"]))
                if op == "trunc":
                    iv = int(c) & ((1 << t["w"]) - 1)
                    if iv >= 1 << (t["w"] - 1):
                        iv -= 1 << t["w"]
                    return alg.const(iv)
                if op in ("fptosi", "fptoui"):
                    return alg.const(int(c))
                if op == "bitcast" and ft["k"] != t["k"]:
                    n = self.fromint(self.bits(x, ft), t)
                    return n
                if op == "inttoptr":
                    return Ptr("null", 0) if c == 0 else UNDEF
                return x
            if op in ("fptosi", "fptoui"):
                if all(alg.KERNELS[k].isint for k in x.kernels()) and alg.p_isconst(x.den) and alg.p_cval(x.den) == 1:
                    return x
                return alg.call("toint", (x,), None, True)
            return x
        return mapn(f, [v], ("cast", op, ft.get("w"), t.get("w"), ft["k"], t["k"]))

    def farith(self, op, a, b=None):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, bool):
            a = alg.const(int(a))
        if isinstance(b, bool):
            b = alg.const(int(b))
        if op == "fneg":
            if a is INF:
                return NINF
            if a is NINF:
                return INF
            if a is NAN:
                return NAN
            return alg.neg(a)
        sa, sb = not isinstance(a, R), not isinstance(b, R)
        if sa or sb:
            if a is NAN or b is NAN:
                return NAN
            return alg.call("special:%s:%s:%s" % (op, a if sa else "", b if sb else ""), tuple(x for x in (a, b) if isinstance(x, R)))
        if dd.CFG["raw"] and not (a.is_const() and b.is_const()):
            return alg.call(op, (a, b))
        try:
            if op == "fadd":
                return alg.add(a, b)
            if op == "fsub":
                return alg.sub(a, b)
            if op == "fmul":
                return alg.mul(a, b)
            if op == "fdiv":
                if not b.num:
                    if a.is_const() and a.cval() == 0:
                        return NAN
                    return INF
                return alg.div(a, b)
        except ZeroDivisionError:
            return NAN
        return alg.call(op, (a, b))

    def iarith(self, op, a, b, w):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        pa, pb = isinstance(a, Ptr), isinstance(b, Ptr)
        if pa or pb:
            if pa and pb:
                if op == "sub" and a.base == b.base:
                    return alg.sub(alg.lift(a.off), alg.lift(b.off))
                return alg.call("ptr" + op, (alg.var(str(a)), alg.var(str(b))), None, True)
            if op in ("add", "sub") and pa and isinstance(b, R) and b.is_const():
                k = int(b.cval())
                return Ptr(a.base, a.off + (k if op == "add" else -k))
            if op == "add" and pb and isinstance(a, R) and a.is_const():
                return Ptr(b.base, b.off + int(a.cval()))
            if op == "and" and pa and isinstance(b, R) and b.is_const() and 0 <= b.cval() < 64:
                return alg.const(a.off & int(b.cval()))
            if op == "and" and pa and isinstance(b, R) and b.is_const() and b.cval() < 0:
                return Ptr(a.base, a.off & int(b.cval()))
            if op in ("lshr", "ashr") and pa and isinstance(b, R) and b.is_const():
                return alg.const(a.off >> int(b.cval()))
            return UNDEF
        if isinstance(a, Cat) or isinstance(b, Cat):
            if op == "lshr" and isinstance(a, Cat) and b.is_const():
                sh = int(b.cval()) // 8
                ps = tuple((po - sh, s, v) for po, s, v in a.pieces if po >= sh)
                if len(ps) == 1 and ps[0][0] == 0:
                    return ps[0][2]
                return Cat(ps)
            if op == "and" and isinstance(a, Cat):
                for po, s, v in a.pieces:
                    if po == 0 and b.is_const() and int(b.cval()) == (1 << (8 * s)) - 1:
                        return v
            return UNDEF
        if isinstance(a, dd.Special) or isinstance(b, dd.Special):
            return UNDEF
        ca, cb = a.is_const(), b.is_const()
        if ca and cb and a.cval().denominator == 1 and b.cval().denominator == 1:
            x, y = int(a.cval()), int(b.cval())
            M = (1 << w) - 1
            ux, uy = x & M, y & M
            if op == "add":
                r = x + y
            elif op == "sub":
                r = x - y
            elif op == "mul":
                r = x * y
            elif op == "sdiv":
                if y == 0:
                    return UNDEF
                r = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
            elif op == "udiv":
                if uy == 0:
                    return UNDEF
                r = ux // uy
            elif op == "srem":
                if y == 0:
                    return UNDEF
                r = abs(x) % abs(y) * (1 if x >= 0 else -1)
            elif op == "urem":
                if uy == 0:
                    return UNDEF
                r = ux % uy
            elif op == "and":
                r = ux & uy
            elif op == "or":
                r = ux | uy
            elif op == "xor":
                r = ux ^ uy
            elif op == "shl":
                r = ux << y
            elif op == "lshr":
                r = ux >> y
            elif op == "ashr":
                r = x >> y
            r &= M
            if r >= 1 << (w - 1):
                r -= 1 << w
            return alg.const(r)
        if op == "add":
            return alg.add(a, b)
        if op == "sub":
            return alg.sub(a, b)
        if op == "mul":
            return alg.mul(a, b)
        if op == "shl" and cb:
            return alg.mul(a, alg.const(1 << int(b.cval())))
        if op in ("sdiv", "udiv") and cb and int(b.cval()) == 1:
            return a
        if op == "and":
            if ca and a.cval() == 0 or cb and b.cval() == 0:
                return alg.const(0)
            if cb and int(b.cval()) in ((1 << w) - 1, -1, 255, 65535, 4294967295):
                return a
            if a == b:
                return a
            if cb and int(b.cval()) == 1 and len(a.num) == 1 and alg.p_isconst(a.den):
                return a if alg.sign_of(a) in ("0+", "+") and (w == 8) else alg.call("and", (a, b), "0+", True)
            x, y = (a, b) if str(a) <= str(b) else (b, a)
            return alg.call("and", (x, y), None, True)
        if op == "or":
            if ca and a.cval() == 0:
                return b
            if cb and b.cval() == 0:
                return a
            if a == b:
                return a
            x, y = (a, b) if str(a) <= str(b) else (b, a)
            return alg.call("or", (x, y), None, True)
        if op == "xor":
            if a == b:
                return alg.const(0)
            if cb and int(b.cval()) == -1:
                return alg.sub(alg.neg(a), alg.const(1))
            if cb and int(b.cval()) == 1 and w == 8:
                return alg.sub(alg.const(1), a)
            x, y = (a, b) if str(a) <= str(b) else (b, a)
            return alg.call("xor", (x, y), None, True)
        return alg.call(op, (a, b), None, True)

    FP = {"oeq": ("=", False), "ogt": (">", False), "oge": (">=", False), "olt": ("<", False), "ole": ("<=", False),
          "one": ("<>", False), "ord": ("<=>", False), "ueq": ("=", True), "ugt": (">", True), "uge": (">=", True),
          "ult": ("<", True), "ule": ("<=", True), "une": ("<>", True), "uno": ("", True), "true": ("<=>", True),
          "false": ("", False)}
    IP = {"eq": "=", "ne": "<>", "sgt": ">", "sge": ">=", "slt": "<", "sle": "<=", "ugt": ">", "uge": ">=", "ult": "<",
          "ule": "<="}

    def cmp1(self, op, pred, a, b):
        if op == "icmp":
            return self.icmp(pred, a, b)
        want, un = self.FP[pred]
        w = set(want)
        return mapn(lambda x, y: dd.cmp_leaf(x, y, w, un, True), [a, b], ("fcmp", pred, dd.CFG["nan"]))

    def icmp(self, pred, a, b):
        w = set(self.IP[pred])

        def f(x, y):
            if isinstance(x, bool) and isinstance(y, bool):
                if pred in ("eq", "ne"):
                    return (x == y) == (pred == "eq")
            if pred[0] == "u" and isinstance(x, R) and isinstance(y, R) and x.is_const() and y.is_const():
                cx, cy = x.cval(), y.cval()
                cx = cx + 2**64 if cx < 0 else cx
                cy = cy + 2**64 if cy < 0 else cy
                s = "<" if cx < cy else (">" if cx > cy else "=")
                return s in w
            if pred[0] == "u" and isinstance(y, R) and y.is_const() and y.cval() < 0 and isinstance(x, R):
                return "<" in w
            return dd.cmp_leaf(x, y, w, False, False)
        return mapn(f, [a, b], ("icmp", pred))

    # ------------------------------------------------------------ calls
    def do_call(self, ins, mem, guard):
        self.stats["calls"] += 1
        if ins.get("asm"):
            return leaf(UNDEF), mem, guard
        name = ins.get("callee")
        if name and name.startswith("llvm."):
            return self.intrinsic(name, ins, mem, guard)
        args = [self.cval(a) if "md" not in a else None for a in ins["args"]]
        if name is None:
            fp = self.cval(ins["fptr"])
            targets = [x for x in dd.leaves(fp)]
            fns = [x for x in targets if isinstance(x, Ptr) and x.base.startswith("fn:")]
            if len(targets) == 1 and fns:
                name = fns[0].base[3:]
            else:
                return self.opaque("<indirect>", "<indirect> " + str(fp), [fp] + args, ins, mem, guard)
        dem = self.m.dem.get(name, name)
        if self.drain and not ins.get("const") and (name not in self.m.fns or any(rx.search(dem) for rx, _ in self.summaries)) and not mathname(name):
            self.cut_guard = lor(self.cut_guard, guard)
            return None, mem, F
        for rx, fn in self.summaries:
            if rx.search(dem):
                r = fn(self, name, dem, args, ins, mem, guard)
                if r is not None:
                    return r
        mm = mathname(name)
        if mm:
            self.maths.append((mm, args, guard, ins))
            return self.mathcall(mm, args), mem, guard
        if name in self.m.fns:
            sg = self.guard
            v, m2, g2 = self.run_fn(self.m.fns[name], args, mem, guard)
            self.guard = g2
            return v, m2, g2
        return self.opaque(name, dem, args, ins, mem, guard)

    def mathcall(self, mm, args):
        if mm == "fabs":
            return mapn(self.leaf_fabs, args, "fabs")
        if mm in ("fmax", "fmin"):
            want = {">"} if mm == "fmax" else {"<"}
            c = mapn(lambda x, y: dd.cmp_leaf(x, y, want, False, True), args, mm)
            return dd.settle(ite(c, args[0], args[1]))
        if mm == "copysign":
            def cs(a, s):
                fa = self.leaf_fabs(a)
                fa = fa if isinstance(fa, Node) else leaf(fa)
                ng = dd.cmp_leaf(s, alg.const(0), {"<"}, False, True)
                return ite(ng, mapn(lambda x: self.farith("fneg", x), [fa], "fneg"), fa)
            return mapn(cs, args, "copysign")

        def f(*a):
            if any(not isinstance(x, R) for x in a):
                if any(x is UNDEF for x in a):
                    return UNDEF
                return alg.call("special:" + mm + ":" + ",".join(str(x) for x in a), ())
            if dd.CFG["raw"]:
                return alg.call("raw:" + mm, a)
            if mm in alg.MATH:
                try:
                    return alg.MATH[mm](*a)
                except ZeroDivisionError:
                    return NAN
            return alg.call(mm, a)
        return mapn(f, args, ("math", mm))

    def leaf_fabs(self, x):
        if not isinstance(x, R):
            return INF if x is NINF else x
        s = alg.sign_of(x)
        if s in ("+", "0+", "0"):
            return x
        if s in ("-", "0-"):
            return alg.neg(x)
        if dd.CFG["raw"]:
            return alg.call("raw:fabs", (x,), "0+")
        if dd.CFG["extrema"]:
            return dd.sup((x, alg.neg(x)))
        return ite(dd.sgn_test(x, {"<"}), leaf(alg.neg(x)), leaf(x))

    def opaque(self, name, dem, args, ins, mem, guard):
        if ins.get("const"):
            def f(*a):
                return self.uf(name, a, ins["t"])
            if ins["t"]["k"] == "v":
                return None, mem, guard
            return mapn(f, args, ("uf", name)), mem, guard
        if dem.startswith("Eigen::") and not ins.get("noreturn"):
            raise AnalysisError("no contract for %s" % dem)
        e = Event()
        self.seq += 1
        e.guard, e.name, e.dem, e.args, e.seq = guard, name, dem, args, self.seq
        e.loc = ins.get("loc")
        e.mem = mem
        e.fn = self.fn["name"]
        e.res = self.fresh("%s#%d" % (short(dem), self.seq), ins["t"])
        self.events.append(e)
        if ins.get("noreturn"):
            self.unreach = lor(self.unreach, guard)
            return e.res, mem, F
        return e.res, mem, guard

    def uf(self, name, a, t):
        aa = []
        for x in a:
            if isinstance(x, bool):
                x = alg.const(int(x))
            if not isinstance(x, R):
                x = alg.var(str(x))
            aa.append(x)
        k = alg.call(name, aa, "0+" if t["k"] == "i" and t["w"] <= 8 else None, t["k"] == "i")
        if t["k"] == "i" and t["w"] == 1:
            return dd.sgn_test(k, {">", "<"})
        return k

    def fresh(self, nm, t):
        if t["k"] == "v":
            return None
        if t["k"] == "s":
            return tuple(self.fresh("%s.%d" % (nm, i), f) for i, f in enumerate(t["f"]))
        if t["k"] == "V":
            return tuple(self.fresh("%s.%d" % (nm, i), t["e"]) for i in range(t["n"]))
        if t["k"] == "p":
            return leaf(Ptr("*" + nm, 0))
        if t["k"] == "i":
            if t["w"] == 1:
                v = dd.mkvar(("bool", nm), ("false", "true"), nm)
                return dd.mk(v, [F, T])
            return num(alg.var(nm, "0+" if t["w"] == 8 else None, True))
        return num(alg.var(nm))

    def sole(self, v, guard):
        """the only defined value v can have where guard holds, if there is one"""
        if not isinstance(v, Node) or v.var is None:
            return v
        ls = {x for x in dd.leaves(ite(guard, v, leaf(UNDEF))) if x is not UNDEF}
        return leaf(ls.pop()) if len(ls) == 1 else v

    def intrinsic(self, name, ins, mem, guard):
        if name.startswith(("llvm.lifetime", "llvm.assume", "llvm.experimental.noalias", "llvm.dbg", "llvm.donothing",
                            "llvm.invariant", "llvm.stacksave", "llvm.stackrestore", "llvm.var.annotation", "llvm.prefetch")):
            v = leaf(UNDEF) if "id" in ins else None
            return v, mem, guard
        if name.startswith("llvm.eh.typeid.for"):
            p = self.cval(ins["args"][0])
            return mapn(lambda x: alg.const(typeid(gname(x.base))), [p], "typeid"), mem, guard
        if name.startswith("llvm.trap"):
            self.unreach = lor(self.unreach, guard)
            return None, mem, F
        if name.startswith("llvm.launder") or name.startswith("llvm.strip") or name.startswith("llvm.ptr.annotation") or name.startswith("llvm.expect"):
            return self.cval(ins["args"][0]), mem, guard
        if name.startswith("llvm.memset"):
            p, v, n = [self.sole(self.cval(a), guard) for a in ins["args"][:3]]
            if n.var is not None or not n.val.is_const():
                raise AnalysisError("memset of symbolic size %s" % n)
            n = int(n.val.cval())
            if n == 0:
                return None, mem, guard
            if v.var is None and isinstance(v.val, R) and v.val.is_const() and v.val.cval() == 0 and p.var is None and isinstance(p.val, Ptr):
                return None, self.memset0(mem, p.val, n), guard
            raise AnalysisError("memset %s %s" % (p, v))
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            d, s, n = [self.sole(self.cval(a), guard) for a in ins["args"][:3]]
            if n.var is not None or not isinstance(n.val, R) or not n.val.is_const():
                raise AnalysisError("memcpy of symbolic size %s" % n)
            n = int(n.val.cval())
            if n == 0:
                return None, mem, guard
            if d.var is not None or not isinstance(d.val, Ptr):
                raise AnalysisError("memcpy through gated destination %s" % d)
            if s.var is None:
                if not isinstance(s.val, Ptr):
                    return None, mem, guard
                return None, self.memcpy(mem, d.val, s.val, n), guard
            lst = []
            for p in set(x for x in dd.leaves(s) if isinstance(x, Ptr)):
                g = mapn(lambda x, p=p: x == p, [s], ("is", p))
                lst.append((g, self.memcpy(mem, d.val, p, n)))
            if not lst:
                return None, mem, guard
            _, m2 = self.merge(lst)
            return None, m2, guard
        args = [self.cval(a) for a in ins["args"]]
        base = name.split(".")[1]
        if base in ("fabs", "sqrt", "exp", "exp2", "log", "log2", "log10", "sin", "cos", "pow", "fma", "fmuladd",
                    "floor", "ceil", "copysign", "trunc", "round", "rint", "nearbyint"):
            if isinstance(args[0], tuple):
                self.maths += [(base, list(z), guard, ins) for z in zip(*args)]
                return tuple(self.mathcall(base, list(z)) for z in zip(*args)), mem, guard
            self.maths.append((base, args, guard, ins))
            return self.mathcall(base, args), mem, guard
        if base in ("minnum", "maxnum", "minimum", "maximum"):
            return self.mathcall("fmax" if base.startswith("max") else "fmin", args), mem, guard
        if base in ("smax", "smin", "umax", "umin"):
            pred = {"smax": "sgt", "smin": "slt", "umax": "ugt", "umin": "ult"}[base]
            return ite(self.icmp(pred, args[0], args[1]), args[0], args[1]), mem, guard
        if base == "abs":
            return mapn(self.leaf_fabs, args[:1], "fabs"), mem, guard
        if base == "powi":
            return mapn(lambda a, n: alg.powr(a, n) if isinstance(a, R) and isinstance(n, R) else UNDEF, args, "powi"), mem, guard
        if name.startswith("llvm.is.fpclass"):
            mask = int(args[1].val.cval())
            outs = []
            if mask & 3:
                outs.append("nan")
            if mask & 0x204 == 0x204:
                outs.append("inf")
            fin = mask & 0x1f8
            if fin == 0x1f8:
                outs.append("finite")
            elif fin == 0x60:
                return mapn(lambda x: dd.cmp_leaf(x, alg.const(0), {"="}, False, True), args[:1], "fpz"), mem, guard
            elif fin or (mask & 0x204) not in (0, 0x204):
                raise AnalysisError("fpclass mask %x" % mask)
            o = tuple(outs)
            return mapn(lambda x: dd.class_test(x, o) if x is not UNDEF else UNDEF, args[:1], ("cls", o)), mem, guard
        if base in ("umul", "uadd", "usub", "sadd", "smul", "ssub"):  # with.overflow
            op = {"umul": "mul", "smul": "mul", "uadd": "add", "sadd": "add", "usub": "sub", "ssub": "sub"}[base]
            w = ins["t"]["f"][0]["w"] if ins["t"]["k"] == "s" else ins["t"]["w"]
            r = mapn(lambda a, b: self.iarith(op, a, b, w), args, (op, w))
            if ins["t"]["k"] == "s":
                return (r, F), mem, guard
            # saturating
            if base == "usub":
                return ite(self.icmp("ult", args[0], args[1]), num(0), r), mem, guard
            return r, mem, guard
        if base == "eh":
            return num(1), mem, guard
        if base in ("ctlz", "cttz", "ctpop", "bswap", "fshl", "fshr"):
            return mapn(lambda *a: alg.call(base, [x for x in a if isinstance(x, R)], None, True), [a for a in args], base), mem, guard
        if base == "objectsize":
            return num(-1), mem, guard
        if base == "load" or base == "threadlocal":
            return args[0], mem, guard
        raise AnalysisError("intrinsic " + name)


class Cat:
    """value assembled from several memory pieces"""
    __slots__ = ("pieces",)

    def __init__(self, pieces):
        self.pieces = tuple(pieces)

    def __hash__(self):
        return hash(tuple((a, b, v.id) for a, b, v in self.pieces))

    def __eq__(self, o):
        return isinstance(o, Cat) and [(a, b, v.id) for a, b, v in self.pieces] == [(a, b, v.id) for a, b, v in o.pieces]

    def __repr__(self):
        return "cat(%s)" % ", ".join(str(v) for _, _, v in self.pieces)


class LazyCells(dict):
    """cells of an object whose unwritten parts were copied from another object"""
    pass


_orig_read = Interp.read_cell


def _read_cell(self, o, base, off, t):
    lz = getattr(o.cells, "lazy", None)
    if lz and off not in o.cells and not self.overlaps(o, off, t["sz"]):
        infill = any(lo <= off < hi for lo, hi in o.fill)
        if not infill:
            for (doff, n, sb, soff, so) in reversed(lz):
                if doff <= off < doff + n:
                    return self.read_cell(so, sb, off - doff + soff, t)
    return _orig_read(self, o, base, off, t)


Interp.read_cell = _read_cell


def _obj_copy(self):
    c = LazyCells(self.cells) if isinstance(self.cells, LazyCells) else dict(self.cells)
    if isinstance(self.cells, LazyCells):
        c.lazy = list(self.cells.lazy)
    return Obj(c, self.epoch, self.fill)


Obj.copy = _obj_copy


def count_blocks(elems):
    n = 0
    for e in elems:
        n += 1 if isinstance(e, int) else 1 + count_blocks(e[1])
    return n


def short(dem):
    s = dem.split("(")[0]
    return s.split(" ")[-1][-60:]


def mathname(name):
    n = name
    if n in MATHNAMES:
        return n
    if n.endswith("f") and n[:-1] in MATHNAMES and n not in ("erf",):
        return n[:-1]
    if n == "erff":
        return "erf"
    return None


# ------------------------------------------------------------ weak topological order

def wto(succ, root):
    """Bourdoncle's hierarchical ordering: list of int | (head, [..])"""
    dfn = {}
    num_ = [0]
    stack = []
    import sys
    sys.setrecursionlimit(100000)

    def component(v):
        part = []
        for w in succ[v]:
            if dfn.get(w, 0) == 0:
                visit(w, part)
        return (v, part)

    def visit(v, part):
        stack.append(v)
        num_[0] += 1
        dfn[v] = num_[0]
        head = dfn[v]
        loop = False
        for w in succ[v]:
            if dfn.get(w, 0) == 0:
                m = visit(w, part)
            else:
                m = dfn[w]
            if m <= head:
                head = m
                loop = True
        if head == dfn[v]:
            dfn[v] = 10**9
            e = stack.pop()
            if loop:
                while e != v:
                    dfn[e] = 0
                    e = stack.pop()
                part.insert(0, component(v))
            else:
                part.insert(0, v)
        return head

    part = []
    visit(root, part)
    return part
