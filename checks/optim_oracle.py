"""Shared by the checks of the optimisation loop: the opaque solver, clocks,
histories, the symbolic arguments of the clients, and the reference semantics of
one iteration."""
from fw import *  # noqa
import eig

OPAQUE = (r"^std::vector<(double|float|bool)\b.*::(emplace_back|push_back|reserve)",
          r"^std::chrono::.*::now$")
FIELDS = ("stop", "cost", "count", "rerr", "nres", "iters", "fails", "consec", "ms", "ok", "has", "dx0", "dx1")
NAMES = ("None", "Skipped", "NaN", "SolverFailed", "MaxConsec", "MaxTotal", "MinError", "MinRel", "MinDelta", "MinGrad", "User", "TimedOut",
         "MaxIters", "OutOfMemory", "eps", "dmax", "final0", "count0", "rerr0", "nres0", "iters0", "fails0", "consec0", "ms0")


def boolvar(name):
    return dd.mk(dd.mkvar(("bool", name), ("false", "true"), name), [F, T])


def append(it, name, dem, args, ins, mem, guard):
    """a value is appended to a history vector"""
    f = eig.F32 if "vector<float" in dem else eig.F64
    isb = "vector<bool" in dem
    v = args[1]
    if any(isinstance(x, Ptr) for x in dd.leaves(v)):
        v = it.load(mem, v, {"k": "i", "w": 8, "sz": 1} if isb else f)
    if isb:
        v = it.asnum(v)
    _, mem, guard = it.opaque("vpx_hist", "vpx_hist", [args[0], v], dict(ins, t={"k": "v"}, const=False, noreturn=False), mem, guard)
    return (None if ins["t"]["k"] == "v" else it.fresh("ref#%d" % it.seq, ins["t"])), mem, guard


def ignore(it, name, dem, args, ins, mem, guard):
    return eig.None_result(ins), mem, guard


SUMS = [(re.compile(r"^std::vector<(double|float|bool)\b.*::(emplace_back|push_back)\b"), append),
        (re.compile(r"^std::vector<(double|float|bool)\b.*::reserve$"), ignore)]

THRESH = ("min_error", "min_rerr", "min_step", "min_grad", "max_ms")


def opt_args(kw):
    d = {k: V(k) for k in THRESH}
    d.update({k: v for k, v in kw.items() if k in d})
    return d


def inputs(**kw):
    d = {"mcf": V("mcf", "0+", True), "mtf": V("mtf", "0+", True), "quality": boolvar("quality"), "log": F,
         "final": V("final"), "rerr0": V("rerr0"), "ms0": V("ms0"), "nres0": V("nres0", None, True), "iters": V("iters", "0+", True),
         "fails": V("fails", "0+", True), "consec": V("consec", "0+", True)}
    d.update({k: V(k) for k in THRESH})
    d.update(kw)
    return d


def names(c, m):
    r = analyse(c, m, "vp_names", [OUT])
    out = {}
    for i, n in enumerate(NAMES):
        v = r.out(i)
        if v.var is not None or not isinstance(v.val, R):
            raise Broken("value of %s not found" % n)
        out[n] = v.val
    return out


def rounds_cut(n):
    """leave every undecided loop after n rounds"""
    return lambda fn, h, k: k >= n


def run_step(c, m, root, d, cut=None, nan=False):
    dd.CFG["nan"] = nan

    def st(it):
        it.undecided = 0
        it.cut = cut
    args = [Arr("v", 5, 4, vals=[d[k] for k in THRESH]), d["mcf"], d["mtf"], d["quality"], d["log"],
            Arr("in", 3, 8, vals=[d["final"], d["rerr0"], d["ms0"]]), d["nres0"], d["iters"], d["fails"], d["consec"], Arr("x", 2), OUT]
    r = analyse(c, m, root, args, setup=st, summaries=SUMS)
    r.f = {n: r.out(i) for i, n in enumerate(FIELDS)}
    return r


def events(r, name):
    return [e for e in r.it.events if e.name == name]


def attempts(r):
    """outcomes of the builds, in program order: one dict per call of Build"""
    out = []
    for e in r.it.events:
        if e.name == "vpx_build":
            out.append({"guard": e.guard, "build": e.res, "x": e.args, "dx": [], "grad": [], "seq": e.seq, "loc": e.loc})
        elif e.name in ("vpx_solved", "vpx_cost", "vpx_count", "vpx_grad2"):
            out[-1][e.name[4:]] = e.res
        elif e.name in ("vpx_dx", "vpx_grad"):
            out[-1][e.name[4:]].append(e.res)
    return out


def val(n):
    return n.val if isinstance(n, dd.Node) and n.var is None else n


def nonfinite(x):
    return mapn(lambda v: dd.class_test(v, ("nan", "inf")), [N(x)], ("nonfinite", dd.CFG["nan"]))


class Step:
    """reference semantics of one iteration; guard: condition under which it runs"""

    def __init__(self, K, d, att, st, callbacks=(None, None)):
        """d: inputs, att: outcomes of the successive attempts, st: dict with final, count, rerr, nres, iters, fails, consec"""
        s = self.s = dict(st)
        s["stop"], s["ok"], s["has"] = num(K["None"]), num(0), num(0)
        dim = len(att[0]["dx"])
        for i in range(dim):
            s["dx%d" % i] = num(0)
        self.hist = []          # (condition, err, |dx|^2, accepted)
        self.good, self.bad, self.failed = [], [], []
        self.cb = []
        live = T                # still trying
        self.cases = {}
        self.attempts = []      # condition of each attempt
        mcf, mtf = d["mcf"], d["mtf"]
        tries = ite(cmp_eq(mcf, 0), num(255), N(mcf))
        for i, a in enumerate(att):
            self.attempts.append(live)
            ok = land(a["build"], a["solved"])
            self.finish(K, d, a, land(live, ok), dim, callbacks)
            fl = land(live, lnot(ok))
            self.upd(fl, fails=n_add(s["fails"], num(1)), consec=n_add(s["consec"], num(1)))
            none = land(fl, cmp_eq(a["count"], 0))
            self.case("Skipped", none)
            self.upd(none, stop=num(K["Skipped"]))
            fl = land(fl, lnot(none))
            bad = land(fl, nonfinite(a["cost"]))
            self.case("NaN", bad)
            self.upd(bad, stop=num(K["NaN"]))
            fl = land(fl, lnot(bad))
            lim = land(fl, land(cmp_lt(0, mcf), cmp_le(mcf, s["consec"])))
            self.case("SolverFailed", lim)
            self.upd(lim, stop=num(K["SolverFailed"]))
            fl = land(fl, lnot(lim))
            self.failed.append(fl)
            last = land(fl, cmp_le(tries, i))
            self.case("SolverFailed", last)
            self.upd(last, stop=num(K["SolverFailed"]))
            live = land(fl, lnot(last))
        self.live = live

    def case(self, n, g):
        self.cases[n] = lor(self.cases.get(n, F), g)

    def upd(self, g, **kw):
        for k, v in kw.items():
            self.s[k] = ite(g, N(v), self.s[k])

    def finish(self, K, d, a, g, dim, callbacks):
        s = self.s
        err, mcf, mtf = a["cost"], d["mcf"], d["mtf"]
        bad = land(g, nonfinite(err))
        dn2 = num(0)
        for x in a["dx"]:
            dn2 = n_add(dn2, n_mul(x, x))
        bad = lor(bad, land(g, nonfinite(dn2)))
        self.case("NaN", bad)
        self.upd(bad, stop=num(K["NaN"]))
        g = land(g, lnot(bad))
        good = cmp_lt(err, s["final"])
        f = s["final"]
        some = land(cmp_lt(0, f), cmp_lt(f, K["dmax"]))
        rel = ite(some, mapn(lambda x, y: (x - y) / x if isinstance(x, R) and x.num else dd.UNDEF, [f, N(err)], "reldec"), num(0))
        self.hist.append((g, err, dn2, ite(good, num(1), num(0))))
        first = cmp_eq(s["iters"], 0)
        acc = land(g, lor(good, first))
        rej = land(g, lnot(lor(good, first)))
        self.good.append((land(acc, lnot(first)), ite(d["quality"], rel, num(0))))
        self.bad.append(rej)
        self.upd(acc, consec=num(0), final=err, count=a["count"], nres=a["count"], rerr=rel)
        self.upd(rej, fails=n_add(s["fails"], num(1)), consec=n_add(s["consec"], num(1)))
        mc = land(rej, land(cmp_lt(0, mcf), cmp_le(mcf, s["consec"])))
        self.case("MaxConsec", mc)
        self.upd(mc, stop=num(K["MaxConsec"]))
        rej2 = land(rej, lnot(mc))
        mt = land(rej2, land(cmp_lt(0, mtf), cmp_le(mtf, s["fails"])))
        self.case("MaxTotal", mt)
        self.upd(mt, stop=num(K["MaxTotal"]))
        g = land(g, lnot(lor(mc, mt)))
        self.valid = g
        rest = g
        for n, cond in (("MinError", land(cmp_lt(0, d["min_error"]), cmp_lt(err, d["min_error"]))),
                        ("MinRel", land(cmp_lt(0, d["min_rerr"]), land(cmp_lt(0, rel), cmp_lt(rel, d["min_rerr"])))),
                        ("MinDelta", land(cmp_lt(0, d["min_step"]), cmp_lt(dn2, d["min_step"]))),
                        ("MinGrad", land(cmp_lt(0, d["min_grad"]), cmp_lt(a["grad2"], d["min_grad"])))):
            here = land(rest, cond)
            self.case(n, here)
            self.upd(here, stop=num(K[n]))
            rest = land(rest, lnot(cond))
        self.cb.append((rest, err, dn2, a["grad2"], a["dx"], a["grad"]))
        for k in range(2):
            if callbacks[k] is not None:
                here = land(rest, callbacks[k])
                self.case("User", here)
                self.upd(here, stop=num(K["User"]))
                rest = land(rest, lnot(callbacks[k]))
                self.cb.append((rest, err, dn2, a["grad2"], a["dx"], a["grad"]))
        self.upd(g, ok=ite(good, num(1), num(0)), has=num(1), **{"dx%d" % i: a["dx"][i] for i in range(dim)})


def start(d):
    return {"final": N(d["final"]), "count": N(d["nres0"]), "rerr": N(d["rerr0"]), "nres": N(d["nres0"]), "iters": N(d["iters"]), "fails": N(d["fails"]),
            "consec": N(d["consec"])}


def finite(*xs):
    """the quantities xs are finite numbers"""
    g = T
    for x in xs:
        g = land(g, lnot(nonfinite(x)))
    return g


def plain(d, att):
    """options, previous results and gradients are finite"""
    g = finite(*[d[k] for k in THRESH], d["final"], d["rerr0"])
    for a in att:
        g = land(g, finite(a["grad2"], *a["grad"]))
    return g


RFIELDS = ("stop", "final", "count", "rerr", "nres", "iters", "fails", "consec", "ms", "saved", "x0", "x1", "h0", "h1", "h2", "h3")


def run_inputs(**kw):
    d = {"mcf": V("mcf", "0+", True), "mtf": V("mtf", "0+", True), "quality": F, "log": F, "check": boolvar("check_final_cost"), "save": T,
         "max_iters": V("max_iters", "0+", True), "arg": alg.const(-1)}
    d.update({k: alg.const(0) for k in THRESH})
    d.update(kw)
    return d


def run_loop(c, m, root, d, rounds, tries, nan=False):
    """the whole run: rounds iterations of at most tries attempts each"""
    dd.CFG["nan"] = nan

    def st(it):
        it.undecided = 0
        if rounds is not None:
            it.cut = lambda fn, h, k: k >= (rounds if it.nest == 1 else tries)
    args = [Arr("v", 5, 4, vals=[d[k] for k in THRESH]), d["mcf"], d["mtf"], d["quality"], d["log"], d["check"], d["save"], d["max_iters"], d["arg"],
            Arr("x", 2), OUT]
    r = analyse(c, m, root, args, setup=st, summaries=SUMS)
    r.f = {n: r.out(i) for i, n in enumerate(RFIELDS)}
    return r


class Run:
    """reference semantics of a whole run: rounds[j] = attempts of iteration j; ms[j] = accumulated duration after it"""

    def __init__(self, K, d, rounds, x, ms=None, callbacks=(None, None)):
        s = {k: num(K[k + "0"]) for k in ("final", "count", "rerr", "nres", "fails", "consec")}
        s.update(iters=num(0), stop=num(K["None"]))
        dim = len(rounds[0][0]["dx"])
        x = [N(v) for v in x]
        limit = ite(cmp_lt(d["arg"], 0), N(d["max_iters"]), N(d["arg"]))
        limit = n_add(limit, num(1))
        limit = n_add(limit, ite(d["check"], num(1), num(0)))
        going = cmp_lt(0, limit)
        pend, pdx, okay = F, [num(0)] * dim, T
        self.x, self.going, self.steps, self.rebuild = [], [], [], []
        for j, att in enumerate(rounds):
            self.x.append(list(x))
            self.going.append(going)
            S = Step(K, d, att, s, callbacks)
            self.steps.append(S)
            t = S.s
            ok, has = cmp_eq(t["ok"], 1), cmp_eq(t["has"], 1)
            back = land(lnot(ok), pend)
            trial = land(lnot(ok), land(lnot(pend), has))
            move = lor(ok, trial)
            for i in range(dim):
                x[i] = ite(going, ite(move, n_add(x[i], t["dx%d" % i]), ite(back, n_add(x[i], n_neg(pdx[i])), x[i])), x[i])
                pdx[i] = ite(move, t["dx%d" % i], pdx[i])
            last = cmp_eq(limit, j + 1)
            only = ite(ok, land(d["check"], last), lnot(okay))
            self.rebuild.append((going, lnot(only)))
            pend = ite(move, T, ite(back, F, pend))
            okay = ok
            stop = t["stop"]
            if ms is not None:
                late = land(cmp_eq(stop, K["None"]), land(cmp_lt(0, d["max_ms"]), cmp_lt(d["max_ms"], ms[j])))
                stop = ite(late, num(K["TimedOut"]), stop)
            t["stop"] = stop
            t["iters"] = num(j + 1)
            for k in list(s):
                s[k] = ite(going, t[k], s[k])
            going = land(land(going, lnot(S.live)), land(cmp_eq(stop, K["None"]), cmp_lt(j + 1, limit)))
        # not finished within the rounds and attempts given
        self.live = going
        for g, S in zip(self.going, self.steps):
            self.live = lor(self.live, land(g, S.live))
        s["stop"] = ite(land(cmp_eq(s["stop"], K["None"]), cmp_le(limit, s["iters"])), num(K["MaxIters"]), s["stop"])
        s["x"] = x
        self.s = s


class Whole:
    """analysis of a run of at most the given numbers of iterations and attempts, and its reference"""

    def __init__(self, c, m, root, rounds, tries, K, nan=False, timed=False, **kw):
        c.limit = 10 ** 6
        self.key = "%s, %d iterations of %d attempts%s" % (root[3:], rounds, tries, (", NaN/Inf" if nan else "") + "".join(
            ", %s=%s" % (k, v) for k, v in sorted(kw.items()) if isinstance(v, R) and k in ("arg", "mcf", "mtf")))
        self.d = d = run_inputs(**{k: v if isinstance(v, dd.Node) else alg.lift(v) for k, v in kw.items()})
        self.r = r = run_loop(c, m, root, d, rounds, tries, nan)
        self.w = r.where()
        att = attempts(r)
        self.rounds = [att[i:i + tries] for i in range(0, len(att), tries)]
        c.oblige(self.key + ": one build per attempt", len(att) <= rounds * tries and len(att) % tries == 0, self.w, "%d builds" % len(att))
        dim = len(att[0]["dx"])
        self.dim = dim
        ms = self.durations(c) if timed else None
        self.U = Run(K, d, self.rounds, [V("x%d" % i) for i in range(dim)], ms)
        # the analysed run ends within the rounds exactly when the reference does
        c.equal(self.key + ": the run goes on exactly as long as required", ite(r.guard, num(1), num(0)), ite(self.U.live, num(0), num(1)), where=self.w)
        self.care = land(r.guard, lnot(self.U.live))

    def durations(self, c):
        """accumulated duration after each iteration, as reported by the runs that end there"""
        out = []
        for j in range(len(self.rounds)):
            here = land(self.r.guard, cmp_eq(self.r.f["iters"], j + 1))
            vals = []

            def rec(n, g):
                if g is F:
                    return
                if n.var is None:
                    if n.val not in vals:
                        vals.append(n.val)
                    return
                for i, o in enumerate(n.var.dom):
                    rec(n.ch[i], land(g, dd.mk(n.var, [T if k == i else F for k in range(len(n.var.dom))])))
            rec(self.r.f["ms"], here)
            if len(vals) > 1:
                c.oblige("%s: duration after iteration %d does not depend on what the iteration did" % (self.key, j + 1), False, self.w,
                         " or ".join(str(v) for v in vals))
            if not vals:
                raise Broken("no run ends after %d iterations" % (j + 1))
            out.append(vals[0])
        return out

    def same(self, c, *names):
        for n in names:
            c.equal("%s: %s" % (self.key, LABEL.get(n, n)), self.r.f[n], self.U.s[n], self.care, where=self.w)


# ------------------------------------------------------------------ obligations on one iteration

ROOTS = ("vp_step_1", "vp_step_2", "vp_step_gd")


class Iteration:
    """analysis of Step with up to n attempts, and its reference"""

    def __init__(self, c, m, root, n, nan, K, defs=(), **kw):
        c.limit = 10 ** 6
        self.key = "%s%s, %d attempt%s, %s" % (root[3:], "".join(defs).replace("-DVP_", " "), n, "s"[:n - 1], "NaN/Inf" if nan else "finite")
        self.d = inputs(**kw)
        self.r = run_step(c, m, root, self.d, cut=rounds_cut(n), nan=nan)
        self.w = self.r.where()
        self.att = attempts(self.r)
        if not self.att or any(k not in a for a in self.att for k in ("solved", "cost", "count", "grad2")):
            raise Broken("%s: outcomes of the build not found" % root)
        cb = (None, None)
        if defs:
            self.stops = [[e for e in events(self.r, nm)] for nm in ("vpx_stop", "vpx_stop2")]
            cb = tuple(self.one(x, lambda e: e.res) if x else None for x in self.stops)
        self.S = Step(K, self.d, self.att, start(self.d), cb)
        self.care = land(self.r.guard, plain(self.d, self.att))
        self.ptrs = [val(a) for a in events(self.r, "vpx_histories")[0].args]

    def one(self, evs, f):
        out = f(evs[0])
        for e in evs[1:]:
            out = ite(e.guard, f(e), out)
        return out

    def hist(self, k):
        """(number of values appended to history k, value)"""
        cnt, v = num(0), num(0)
        for e in events(self.r, "vpx_hist"):
            here = mapn(lambda p: leaf(p == self.ptrs[k]), [e.args[0]], ("hist", str(self.ptrs[k])))
            g = land(e.guard, here)
            cnt = n_add(cnt, ite(g, num(1), num(0)))
            v = ite(g, N(e.args[1]), v)
        return cnt, v

    def want_hist(self, k):
        cnt, v = num(0), num(0)
        for h in self.S.hist:
            cnt = n_add(cnt, ite(h[0], num(1), num(0)))
            v = ite(h[0], N(h[1 + k]), v)
        return cnt, v

    def field(self, n):
        return self.r.f["cost" if n == "final" else n]

    def same(self, c, what, names, care):
        """the given outputs equal those of the reference"""
        for n in names:
            c.equal("%s: %s" % (self.key, what % n), self.field(n), self.S.s[n], land(self.care, care), where=self.w)

    def kept(self, c, what, names, care):
        st = start(self.d)
        for n in names:
            c.equal("%s: %s" % (self.key, what % n), self.field(n), st[n], land(self.care, care), where=self.w)


LABEL = {"final": "final cost", "count": "its residual count", "rerr": "final relative decrease", "nres": "residual count", "ok": "success flag",
         "has": "displacement returned", "fails": "failure count", "consec": "consecutive failure count", "stop": "stop reason",
         "iters": "number of iterations"}


def step_tasks(c, fn, nans=(False,), atts=(1, 2), defs=()):
    m = compile_client(c.work, "optim.cpp", opaque=OPAQUE, shards=8, defs=list(defs), tag="optim" + "".join(x[-3:] for x in defs))
    K = names(c, m)
    if c.thorough:
        atts = tuple(atts) + (max(atts) + 1,)
    return [lambda root=root, n=n, nan=nan: fn(Iteration(c, m, root, n, nan, K, defs), K) for root in ROOTS for n in atts for nan in nans]
