"""Contracts of the fitting loop, the convergence monitor, the information criteria (base.py) and the parameter counts."""
from .base import *
from .emissions import build, gauss, gmm, family_model, CTS
from . import hmmbase

ML = ("CategoricalHMM", "GaussianHMM", "GMMHMM", "MultinomialHMM", "PoissonHMM")
VB = ("VariationalCategoricalHMM", "VariationalGaussianHMM")
PUBLIC = [("hmm", c) for c in ML] + [("vhmm", c) for c in VB]


# ------------------------------------------------------------------ C19
def n_start(): return add(sub(N, 1), mul(N, sub(N, 1)))


HALFD = mul(num(Fraction(1, 2)), D, add(D, 1))
COUNTS = {("CategoricalHMM", None): lambda: mul(N, sub(D, 1)), ("MultinomialHMM", None): lambda: mul(N, sub(D, 1)), ("PoissonHMM", None): lambda: mul(N, D)}
for ct, n in (("spherical", lambda k: k), ("diag", lambda k: mul(k, D)), ("full", lambda k: mul(k, HALFD))):
    COUNTS["GaussianHMM", ct] = lambda n=n: add(mul(N, D), n(N))
    COUNTS["GMMHMM", ct] = lambda n=n: add(mul(N, M, D), n(mul(N, M)), mul(N, sub(M, 1)))
COUNTS["GaussianHMM", "tied"] = lambda: add(mul(N, D), HALFD)
COUNTS["GMMHMM", "tied"] = lambda: add(mul(N, M, D), mul(N, HALFD), mul(N, sub(M, 1)))


def instance(F, mod, cls, ct=None, **kw):
    """an instance with all parameters set"""
    if mod == "hmm":
        if cls == "GaussianHMM": return gauss(F, ct or "full", **kw)
        if cls == "GMMHMM": return gmm(F, ct or "full", **kw)
        m = build(F, mod, cls, **kw); h = F.I.heap[m]; h["n_features"] = D
        if cls == "PoissonHMM": h["lambdas_"] = F.arr("lb", N, D, kind="nonneg")
        else: h["emissionprob_"] = F.arr("ep", N, D, kind="nonneg")
        if cls == "MultinomialHMM": h["n_trials"] = 5
        return m
    m = build(F, mod, cls, **(dict(covariance_type=ct or "full") if cls == "VariationalGaussianHMM" else {}), **kw); F.I.heap[m]["n_features"] = D
    return m


@task("information criteria", "C19 C24")
def t_crit():
    def one(cls, ct, meth, lens):
        def go():
            F = Fn(f"base.{meth}[{cls}{' ' + ct if ct else ''}{'' if lens else ' no lengths'}]"); I = F.I; m = instance(F, "hmm", cls, ct); X = F.arr("X", T_, D); L = F.arr("len", S, dtype="i") if lens else None; calls = []
            LL = sym("LL", "R"); h = I.heap[m]
            # parameters set by hand: n_features may be missing, or (Gaussian) left over from earlier parameters; _check sets it
            if cls == "CategoricalHMM": h["n_features"] = None
            elif cls == "GaussianHMM" and lens: h["n_features"] = sym("D_old", "I", "pos")
            elif not lens: h.pop("n_features", None)
            def check(I, s): I.heap[s]["n_features"] = D
            def score(I, s, X_=None, lengths=None):
                calls.append(X_ is X and lengths is L and s is m); check(I, s); return LL
            I.contracts["hmmlearn.base._AbstractHMM.score"] = score; I.contracts[f"hmmlearn.hmm.{cls}._check"] = check; before = {o: dict(v) if o is m else v for o, v in I.heap.items()}
            k = add(n_start(), COUNTS[cls, ct]())
            def post(v):
                F.V.ob("likelihood of the given data and lengths", bool(calls) and all(calls))
                F.same("minus twice the log likelihood plus " + ("twice the number of free parameters" if meth == "aic" else "the number of free parameters times log(number of samples)"), v, add(mul(-2, LL), mul(2, k) if meth == "aic" else mul(k, log(T_))))
                F.frame("data", X, before=before); F.frame("parameter", *[a for a in before[m].values() if isinstance(a, Arr)], before=before)
                F.V.ob("the model is unchanged", all(I.heap[m].get(q) is a for q, a in before[m].items() if q != "n_features") and set(I.heap[m]) - {"n_features"} == set(before[m]) - {"n_features"})
            F.run(lambda: I.call(I.getattr(m, meth), (X, L)), post)
            return F.done()
        return go
    def none(meth):
        def go():
            F = Fn(f"base.{meth}[model without a count]"); I = F.I; m = build(F, "base", "BaseHMM"); X = F.arr("X", T_, D)
            I.contracts["hmmlearn.base._AbstractHMM.score"] = lambda I, *a, **k: sym("LL", "R"); I.contracts["hmmlearn.base.BaseHMM._check"] = lambda I, s: None
            F.run(lambda: I.call(I.getattr(m, meth), (X,)), lambda v: F.V.ob("a model without a parameter count refuses", False), lambda e, c: F.V.ob("a model without a parameter count refuses", True))
            F.V.out = [o for o in F.V.out if "returns normally" not in o["name"]]; return F.done()
        return go
    return run_all("information criteria", *[one(c, ct, me, le_) for c, ct in COUNTS for me in ("aic", "bic") for le_ in (True, False)], none("aic"), none("bic"))


# ------------------------------------------------------------------ C18: the monitor
NI, TOL = sym("NI", "I", "pos"), sym("TOL", "R")
PREC = pw(num(npm.EPS), Fraction(1, 2))


def gain_small(h, k): return lt(sub(h(sub(k, 1)), h(sub(k, 2))), TOL)


def stops(h, k): return or_(eq(k, NI), and_(le(2, k), gain_small(h, k)))


def history(I, h, k):
    """the record after k reports: h(0), ..., h(k-1)"""
    if num(k) is ZERO: return ()
    j = fresh("j"); return Seq([("many", num(k), j, h(j))])


def same_history(F, name, got, h, k, tail=None):
    """got (content of a ListV) holds exactly h(0), ..., h(k-1)"""
    I = F.I; parts = got.parts if isinstance(got, Seq) else [("one", x) for x in got]
    o = ZERO; ok = True
    for p in parts:
        if p[0] == "one":
            ok &= F.same(f"{name}: entry in order", num_(p[1]), h(o)) is not False; o = add(o, 1)
        else:
            q = fresh("j"); c0 = I.ctx; I.ctx = c0.extend(le(0, q), lt(q, num(p[1])))
            F.same(f"{name}: entry in order", I.vsub(p[3], {p[2]: q}), h(add(o, q))); I.ctx = c0; o = add(o, p[1])
    F.V.ob(f"{name}: one entry per iteration", I.ctx.decide(eq(o, k)) is True, f"{show(o)} against {show(num(k))}")


def monitor(F, verbose=False, it=None, hist=()):
    """a ConvergenceMonitor made by its constructor, in the given state"""
    I = F.I; mo = I.call(F.cls("base", "ConvergenceMonitor"), (TOL, NI, verbose)); h = I.heap[mo]
    if it is not None:
        h["iter"] = it; h["history"] = I.new(ListV(), hist)
    return mo


@task("convergence monitor", "C18 C09 C21")
def t_monitor():
    Hh = lambda j: app("H", j); K = sym("K", "I")
    def init():
        F = Fn("base.ConvergenceMonitor.__init__"); I = F.I
        def post(mo):
            F.same("no iteration recorded", num(I.heap[mo]["iter"]), ZERO); F.V.ob("empty record", I.heap[I.heap[mo]["history"]] == ())
            F.same("tolerance kept", I.heap[mo]["tol"], TOL); F.same("maximum kept", I.heap[mo]["n_iter"], NI)
        F.run(lambda: monitor(F), post); return F.done()
    def reset(which):
        def go():
            F = Fn(f"base.ConvergenceMonitor._reset[{which}]", [le(1, K)]); I = F.I; mo = monitor(F, it=K if which == "used" else 0, hist=history(I, Hh, K if which == "used" else ZERO))
            def post(v):
                F.same("no iteration recorded", num(I.heap[mo]["iter"]), ZERO); same_history(F, "empty record", I.heap[I.heap[mo]["history"]], Hh, ZERO)
                F.same("tolerance kept", I.heap[mo]["tol"], TOL); F.same("maximum kept", I.heap[mo]["n_iter"], NI)
            F.run(lambda: I.call(I.getattr(mo, "_reset"), ()), post); return F.done()
        return go
    def report(first, verbose):
        def go():
            F = Fn(f"base.ConvergenceMonitor.report[{'first' if first else 'later'}{' verbose' if verbose else ''}]", [le(1, K)]); I = F.I
            k = ZERO if first else K; mo = monitor(F, verbose, it=0 if first else K, hist=history(I, Hh, k))
            def post(v):
                F.same("one more iteration", num(I.heap[mo]["iter"]), add(k, 1)); same_history(F, "record", I.heap[I.heap[mo]["history"]], Hh, add(k, 1))
                F.same("tolerance kept", I.heap[mo]["tol"], TOL); F.same("maximum kept", I.heap[mo]["n_iter"], NI)
            F.run(lambda: I.call(I.getattr(mo, "report"), (Hh(k),)), post); return F.done()
        return go
    def conv(n):
        def go():
            F = Fn(f"base.ConvergenceMonitor.converged[{n} entries]", [le(2, K), le(K, NI)] if n == "more" else []); I = F.I
            k = {"no": ZERO, "one": ONE, "more": K}[n]; mo = monitor(F, it=int(k.a[0]) if n != "more" else K, hist=history(I, Hh, k)); before = dict(I.heap)
            def post(v):
                c = tm(v); w = stops(Hh, k)
                F.V.ob("converged exactly when the last gain is below the tolerance or the maximum is reached", agree(I.ctx, c, w), f"{show(c)[:200]} against {show(w)[:200]}")
                if not agree(I.ctx, c, w): F.V.refuted(numeric.refute_goal, iff(c, w), I.ctx)
                F.V.ob("reading does not change the record", I.heap[mo] == before[mo] and I.heap[I.heap[mo]["history"]] == before[before[mo]["history"]])
            F.run(lambda: I.getattr(mo, "converged"), post); return F.done()
        return go
    return run_all("convergence monitor", init, reset("used"), reset("fresh"), *[report(a, b) for a in (True, False) for b in (True, False)], conv("no"), conv("one"), conv("more"))


def iff(a, b): return or_(and_(a, b), and_(not_(a), not_(b)))


def agree(ctx, a, b):
    """a <-> b under the path condition"""
    if a is b: return True
    def imp(x, y): c = ctx.extend(x); return not c.consistent() or c.decide(y) is True
    def both(x, y):
        if x.op == "or": return all(both(z, y) for z in x.a)
        c = ctx.extend(x)
        return not c.consistent() or c.decide(y) is True or (y.op == "or" and any(c.decide(z) is True for z in y.a)) or (y.op == "and" and all(c.decide(z) is True for z in y.a))
    return (both(a, b) and both(not_(a), not_(b))) or (imp(a, b) and imp(b, a))


# ------------------------------------------------------------------ C18, C13, C12: the fitting loop
class Token(Opaque):
    """what the E-step returns for version v of the parameters"""
    def __init__(self, v): super().__init__("statistics"); self.v = v


def LL(v): return app("LOGLIK", v)
def LB(v): return app("BOUND", v)


def resolved(F, m, name):
    """qualified name of the method the class resolves to"""
    f = m.cls.lookup(name)
    if not isinstance(f, FuncV): raise Unsupported(f"{m.cls.name}.{name} is not a function")
    return f.qual


class Loop:
    """ghost state of a fit: version of the parameters (number of M-steps done), log of the calls before the loop"""
    def __init__(self, F, m, X, lengths, vb):
        self.F, self.m, self.X, self.L, self.vb = F, m, X, lengths, vb; I = F.I
        self.g = I.new(Obj("ghost"), {"v": ZERO, "log": ()}); self.loops = 0
        def note(what):
            def f(I, s, *a, **k): I.setk(self.g, "log", I.heap[self.g]["log"] + (what,)); return self.seen(what, s, *a, **k)
            return f
        for n in ("_init", "_check", "_do_estep", "_do_mstep"): I.contracts[resolved(F, m, n)] = note(n)
        if vb: I.contracts[resolved(F, m, "_compute_lower_bound")] = note("_compute_lower_bound")
        I.loop_hook = self.hook

    def v(self): return self.F.I.heap[self.g]["v"]

    def lengths_ok(self, L):
        I = self.F.I
        if self.L is not None: return L is self.L
        if not isinstance(L, (Arr, ListV, tuple)): return False
        L = I.asarr(L)
        return L.ndim == 1 and I.deq(L.shape[0], 1) and I.ctx.decide(eq(nt(I.at(L, (ZERO,))), T_)) is True

    def data_ok(self, X): return isinstance(X, Arr) and X.cell is self.X.cell and X.shape == self.X.shape and X.spec == self.X.spec

    def seen(self, what, s, *a, **k):
        F = self.F; I = F.I; F.V.ob(f"{what} is called on the model", s is self.m)
        if what == "_check": return None
        if what in ("_init", "_do_estep"):
            X = a[0] if a else k.get("X"); L = a[1] if len(a) > 1 else k.get("lengths")
            F.V.ob(f"{what} gets the data", self.data_ok(X)); F.V.ob(f"{what} gets the sequence lengths", self.lengths_ok(L), f"{L!r}")
        if what == "_init": return None
        v = self.v()
        if what == "_do_estep": return (Token(v), LL(v))
        if what == "_do_mstep":
            st = a[0] if a else k.get("stats")
            F.V.ob("the M-step gets the statistics of the parameters in force", isinstance(st, Token) and I.ctx.decide(eq(st.v, v)) is True, f"{st!r}")
            I.setk(self.g, "v", add(v, 1)); return None
        c = a[0] if a else k.get("curr_logprob")
        F.V.ob("the bound is evaluated with the log likelihood of the parameters in force", isinstance(c, T) and (c is LL(v) or I.ctx.decide(eq(c, LL(v))) is True), f"{c!r} at version {show(v)}")
        return LB(v)

    def entry(self, j): return LB(j) if self.vb else LL(j)

    def hook(self, I, s, it, run, fr):
        F = self.F
        if num(it.n) is not NI: return False
        self.loops += 1; mo = I.heap[self.m]["monitor_"]
        F.V.ob("initialised and checked, in this order, before the first iteration", I.heap[self.g]["log"] == ("_init", "_check"), f"{I.heap[self.g]['log']}")
        F.same("the loop starts with no iteration recorded", num_(I.heap[mo]["iter"]), ZERO); same_history(F, "the loop starts with an empty record", I.heap[I.heap[mo]["history"]], self.entry, ZERO)
        F.same("the monitor stops at the model's maximum", num_(I.heap[mo]["n_iter"]), NI); F.same("the monitor uses the model's tolerance", num_(I.heap[mo]["tol"]), TOL)
        base = I.snap(); ctx0 = I.ctx; k = fresh("k"); E = self.entry; hist = I.heap[mo]["history"]
        names = {n for n in base[fr]}
        I.ctx = ctx0.extend(le(0, k), lt(k, NI), not_(and_(le(2, k), gain_small(E, k))))
        I.setk(mo, "iter", k); I.heap[hist] = history(I, E, k) or (); I.setk(self.g, "v", k)
        for x in ast_stores(s): 
            if x in I.heap[fr]: I.heap[fr][x] = Poison(f"{x} of an earlier iteration")
        st0 = I.snap(); c0 = I.ctx; I.wlog.append({})
        outs = I.explore(lambda: run(it.item(k))); w = I.wlog.pop(); seen_end = False
        for cond, kind, val, heap, ctx in outs:
            I.heap = {h: (dict(x) if isinstance(x, dict) else x) for h, x in heap.items()}; I.ctx = ctx
            if kind == "exc": F.V.ob("an iteration never raises", False, f"{val.name} if {show(cond)[:200]}"); continue
            if kind == "ret": F.V.ob("the loop leaves only through its end", False); continue
            F.same("iterations recorded", num_(I.heap[mo]["iter"]), add(k, 1)); same_history(F, "record", I.heap[I.heap[mo]["history"]], E, add(k, 1))
            F.same("one M-step per iteration", self.v(), add(k, 1))
            st = and_(le(2, add(k, 1)), gain_small(E, add(k, 1))); last = eq(add(k, 1), NI)
            if kind == "ok": claim(F, "continues only when the rule does not stop", or_(last, not_(st)), ctx, show(cond)[:300])
            else: claim(F, "stops only when the rule says so", or_(last, st), ctx, show(cond)[:300]); seen_end = True
        for (h, key) in w:
            if h not in base: continue
            fine = h is fr and (key in ast_stores(s)) or h is mo and key in ("iter", "history") or h is hist or h is self.g
            if not fine: F.V.ob("an iteration changes only the record and, through the M-step, the parameters", False, f"{h!r} {key}")
        # after the loop: K iterations, the rule stopped it
        I.restore(base); K = sym("K", "I"); I.ctx = ctx0.extend(le(1, K), le(K, NI), or_(eq(K, NI), and_(le(2, K), gain_small(E, K))))
        mo = I.heap[self.m]["monitor_"]; I.setk(mo, "iter", K); I.heap[I.heap[mo]["history"]] = history(I, E, K); I.setk(self.g, "v", K)
        for x in ast_stores(s): I.setk(fr, x, Poison(f"{x} of the last iteration"))
        return True


def claim(F, name, goal, ctx, detail=""):
    """the disjunction goal follows from the path condition"""
    F.V.ob(name, agree_imp(ctx, goal), detail); F.V.refuted(numeric.refute_goal, goal, ctx)


def ast_stores(s):
    import ast
    return {t.id for t in ast.walk(s) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)}


def agree_imp(ctx, c, depth=3):
    """the path condition implies the disjunction c"""
    if ctx.decide(c) is True: return True
    if depth:
        for f in ctx.facts:
            if f.op == "or" and len(f.a) <= 8: return all(agree_imp(e, c, depth - 1) for x in f.a for e in [ctx.extend(x)] if e.consistent())
    if c.op == "or":
        if any(ctx.decide(x) is True for x in c.a): return True
        for i, x in enumerate(c.a):        # the other alternatives refuted, this one follows
            d = ctx.extend(*[not_(y) for j, y in enumerate(c.a) if j != i])
            if not d.consistent() or d.decide(x) is True: return True
    return False


@task("fitting loop", "C18 C13 C06 C07 C08 C20 C24 C09 C21")
def t_fit():
    def one(mod, cls, lens, verbose=False):
        def go():
            vb = mod == "vhmm"
            F = Fn(f"base.fit[{cls}{'' if lens else ' no lengths'}{' verbose' if verbose else ''}]", [le(1, NI)]); I = F.I; m = instance(F, mod, cls, n_iter=NI, tol=TOL, verbose=verbose)
            if vb: pass
            X = F.arr("X", T_, D); L = F.arr("len", S, dtype="i") if lens else None
            mo = I.heap[m]["monitor_"]; OLD = sym("OLD", "I"); I.ctx = I.ctx.extend(le(1, OLD)); F.V.facts = F.V.facts + [le(1, OLD)]
            I.heap[mo]["iter"] = OLD; I.heap[I.heap[mo]["history"]] = history(I, lambda j: app("OLDH", j), OLD)
            lp = Loop(F, m, X, L, vb); before = dict(I.heap); h0 = dict(I.heap[m])
            def go2():
                r = I.call(I.getattr(m, "fit"), (X, L) if lens else (X,)); return r, I.getattr(I.heap[m]["monitor_"], "converged")
            def post(v):
                v, c = v; F.V.ob("returns the model", v is m); F.V.ob("one fitting loop of at most n_iter iterations", lp.loops >= 1)
                mo = I.heap[m]["monitor_"]; K = sym("K", "I")
                F.same("iterations recorded at the end", num_(I.heap[mo]["iter"]), K); same_history(F, "record at the end", I.heap[I.heap[mo]["history"]], lp.entry, K)
                F.same("iterations performed", lp.v(), K)
                c = tm(c); F.V.ob("reports convergence after the loop", I.ctx.decide(c) is True or agree_imp(I.ctx, c), show(c)[:200])
                F.frame("data", X, *([L] if lens else []), before=before)
                F.V.ob("fit itself changes no attribute", all(I.heap[m].get(q) is a for q, a in h0.items() if q != "monitor_") and set(I.heap[m]) == set(h0))
            F.run(go2, post)
            return F.done()
        return go
    return run_all("fitting loop", *[one(mo, c, le_) for mo, c in PUBLIC for le_ in (True, False)], one("hmm", "GaussianHMM", True, True), one("vhmm", "VariationalGaussianHMM", True, True))
