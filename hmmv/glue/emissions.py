"""Contracts of the emission families (_emissions.py, hmm.py): likelihoods, expected statistics, M-steps."""
from .base import *
from .small import lnormal, assume_pd, cov_shape
from .hmmbase import Seqs, model as abstract_model, util_contracts, positive_likelihood, enable, PA, gamma, xi, off, length, MODES, em, spec_Z
from . import hmmbase
from ..nf import Rules


def dens_contract(F):
    """stats.log_multivariate_normal_density, proved in glue/small.py: DENS stands for the normal density of that covariance type"""
    def f(I, X, means, covars, covariance_type="diag"):
        X, means, covars = I.asarr(X), I.asarr(means), I.asarr(covars)
        ct = covariance_type
        def cov(c):
            if ct == "tied": return npm.mat(I, covars)
            if ct == "full": return npm.mat(I, covars, (c,))
            if ct == "diag" or covars.ndim == 2 and not I.deq(covars.shape[1], 1): return npm.vec(I, covars, (c,))
            return nt(I.at(covars, (c,) + ((ZERO,) if covars.ndim == 2 else ())))
        if ct not in ("spherical", "diag", "tied", "full"): raise PyExc("KeyError")
        return I.arr((X.shape[0], means.shape[0]), lambda t, c: LogV(app("DENS", npm.vec(I, X, (t,)), npm.vec(I, means, (c,)), cov(c))))
    POS.add("DENS"); NONNEG.add("DENS")
    F.I.contracts["hmmlearn.stats.log_multivariate_normal_density"] = f


def vec_(name, *ix):
    d = fresh("l"); return lam((d,), (D,), app(name, *ix, d))


def mat_(name, *ix):
    d, e = fresh("l"), fresh("l"); return lam((d, e), (D, D), app(name, *ix, d, e))


def build(F, mod, cls, impl="log", attrs=(), **kw):
    """an instance made by the class' own constructor, with fitted parameters"""
    I = F.I
    m = I.call(F.cls(mod, cls), (), dict(n_components=N, implementation=impl, **kw))
    h = I.heap[m]
    h["startprob_"] = F.arr("startprob", N, kind="nonneg"); h["transmat_"] = F.arr("transmat", N, N, kind="nonneg")
    h.update(attrs); util_contracts(F)
    return m


# ------------------------------------------------------------------ C15: likelihoods
CTS = ("spherical", "diag", "tied", "full")


def gauss(F, ct, impl="log", **kw):
    """a fitted GaussianHMM"""
    m = build(F, "hmm", "GaussianHMM", impl, covariance_type=ct, **kw)
    sh = {"spherical": (N, D)}.get(ct, cov_shape(ct))
    F.I.heap[m].update(means_=F.arr("mu", N, D), _covars_=F.arr("cov", *sh, kind="pos" if ct in ("spherical", "diag") else "real"), n_features=D)
    return m


def gmm_cov_shape(ct): return {"spherical": (N, M), "diag": (N, M, D), "tied": (N, D, D), "full": (N, M, D, D)}[ct]


def gmm(F, ct, impl="log", **kw):
    m = build(F, "hmm", "GMMHMM", impl, covariance_type=ct, n_mix=M, **kw)
    F.I.heap[m].update(means_=F.arr("mu", N, M, D), covars_=F.arr("cov", *gmm_cov_shape(ct), kind="pos" if ct in ("spherical", "diag") else "real"), weights_=F.arr("wt", N, M, kind="nonneg"), n_features=D)
    rows_positive("wt", M)
    return m


def gdens(ct, r, i, k):
    """density of component k of state i at the row"""
    c = {"spherical": lambda: app("cov", i, k), "diag": lambda: vec_("cov", i, k), "tied": lambda: mat_("cov", i), "full": lambda: mat_("cov", i, k)}[ct]()
    return app("DENS", r, vec_("mu", i, k), c)


def gmix(ct, r, i):
    k = fresh("b"); return ssum(k, M, mul(app("wt", i, k), gdens(ct, r, i, k)))


def prod(n, f):
    v = fresh("b"); return sprod(v, n, f(v))


def likes():
    """(name, setup(F) -> model, X dtype, spec(row index, state) in the linear domain)"""
    out = []
    def g(ct):
        def mk_(F):
            dens_contract(F); return gauss(F, ct)
        def sp(t, c):
            cc = {"spherical": lambda: app("cov", c, ZERO), "diag": lambda: vec_("cov", c), "tied": lambda: mat_("cov"), "full": lambda: mat_("cov", c)}[ct]()
            if ct == "spherical": cc = vec_("cov", c)
            return app("DENS", vec_("X", t), vec_("mu", c), cc)
        return (f"GaussianHMM {ct}", mk_, "f", D, sp)
    for ct in CTS: out.append(g(ct))
    def gm(ct):
        def mk_(F):
            dens_contract(F); return gmm(F, ct)
        return (f"GMMHMM {ct}", mk_, "f", D, lambda t, c: gmix(ct, vec_("X", t), c))
    for ct in CTS: out.append(gm(ct))
    def mul_(F):
        m = build(F, "hmm", "MultinomialHMM"); F.I.heap[m].update(emissionprob_=F.arr("ep", N, D, kind="nonneg"), n_features=D, n_trials=5); return m
    def pm(t, c):
        d = fresh("b"); return app("PMF_MULTINOMIAL", ssum(d, D, app("X", t, d, sort="I")), vec_("ep", c), lam((d,), (D,), app("X", t, d, sort="I")))
    out.append(("MultinomialHMM", mul_, "i", D, pm))
    def poi(F):
        m = build(F, "hmm", "PoissonHMM"); F.I.heap[m].update(lambdas_=F.arr("lb", N, D, kind="nonneg"), n_features=D); return m
    out.append(("PoissonHMM", poi, "i", D, lambda t, c: prod(D, lambda d: app("PMF_POISSON", app("X", t, d, sort="I"), app("lb", c, d)))))
    return out


@task("emission likelihoods", "C01 C03 C15 C16 C24")
def t_like():
    def one(nm, setup, dt, d, sp, meth):
        def go():
            F = Fn(f"_emissions.{nm}.{meth}"); I = F.I; m = setup(F); X = F.arr("X", T_, d, dtype=dt); before = dict(I.heap)
            def post(v):
                F.same("density of the row under the state", v, F.spec((T_, N), (lambda t, c: LogV(sp(t, c))) if "log" in meth else sp))
                F.frame("data", X, before=before)
                F.frame("parameter", *[a for a in I.heap[m].values() if isinstance(a, Arr)], before=before)
            F.run(lambda: I.call(I.getattr(m, meth), (X,)), post)
            return F.done()
        return go
    return run_all("emission likelihoods", *[one(*l, me) for l in likes() for me in ("_compute_log_likelihood", "_compute_likelihood")])


@task("categorical likelihood", "C01 C03 C15 C24 C27")
def t_cat():
    def model_(F, cls=("hmm", "CategoricalHMM")):
        m = build(F, *cls); F.I.heap[m].update(emissionprob_=F.arr("ep", N, D, kind="nonneg"), n_features=D); return m
    def one(meth, valid=True):
        def go():
            F = Fn(f"_emissions.CategoricalHMM.{meth}[{'symbols in range' if valid else 'any symbols'}]"); I = F.I; m = model_(F); X = F.arr("X", T_, 1, dtype="i"); before = dict(I.heap); t = fresh("q")
            x = lambda t: app("X", t, ZERO, sort="I")
            if valid: I.ctx = I.ctx.extend(binder("forall", t, T_, le(0, x(t))), binder("forall", t, T_, lt(x(t), D)))
            def post(v):
                c0 = I.ctx
                F.V.ob("negative symbols are rejected", I.ctx.decide(binder("forall", t, T_, le(0, x(t)))) is True)
                F.V.ob("symbols beyond the alphabet are rejected", I.ctx.decide(binder("forall", t, T_, lt(x(t), D))) is True)
                F.same("probability of the symbol in the state", v, F.spec((T_, N), (lambda t, c: LogV(app("ep", c, x(t)))) if "log" in meth else (lambda t, c: app("ep", c, x(t)))))
                F.frame("data", X, before=before); F.frame("parameter", I.heap[m]["emissionprob_"], before=before)
            def exc(e, c):
                F.V.ob("valid symbols are accepted", not valid, f"{e.name} if {show(c)[:300]}")
                F.V.ob("rejection is an error", e.name in ("ValueError", "IndexError"))
            F.run(lambda: I.call(I.getattr(m, meth), (X,)), post, exc)
            return F.done()
        return go
    return run_all("categorical likelihood", *[one(me, v) for me in ("_compute_log_likelihood", "_compute_likelihood") for v in (True, False)])


# ------------------------------------------------------------------ E-step statistics of the emission families
def abstract_emission(F, cls):
    """the emission methods of the class enter through their contract (proved above); EM is that likelihood"""
    ll, l = hmmbase.emission(F)
    for n, f in (("_compute_log_likelihood", ll), ("_compute_likelihood", l)):
        g = cls.lookup(n)
        if not hasattr(g, "qual"): raise Unsupported(f"{cls.name}.{n} not found")
        F.I.contracts[g.qual] = f
    F.I.contracts["hmmlearn.base._AbstractHMM._compute_likelihood"] = l
    F.I.contracts["hmmlearn.base._AbstractHMM._compute_log_likelihood"] = ll
    positive_likelihood("startprob"); enable()


def tsum(Q, f):
    """sum over all frames of all sequences"""
    t = fresh("b"); return Q.ssum(lambda s: ssum(t, Q.len(s), f(s, t)))


def xat(Q, s, t, d, sort="R"): return app("X", add(Q.off(s), t), d, sort=sort)


def base_stats(F, Q, st, params):
    t = fresh("b")
    F.same("number of sequences", st["nobs"], Q.n)
    F.same("expected starts", st["start"], F.spec((N,), lambda i: Q.ssum(lambda s: gamma(Q, s, ZERO, i)) if "s" in params else ZERO))
    F.same("expected transitions", st["trans"], F.spec((N, N), lambda i, j: Q.ssum(lambda s: ssum(t, sub(Q.len(s), 1), hmmbase.xi(Q, s, t, i, j))) if "t" in params else ZERO))


def estep(name, mk_, params, mode, impl, check, dtype="f", cols=None, sub=None):
    def go():
        F = Fn(f"{name}._do_estep[{impl} params={params!r} {mode}]"); I = F.I; m = mk_(F, impl); I.heap[m]["params"] = params
        abstract_emission(F, m.cls)
        if sub: sub(F, m)
        Q = Seqs(F, mode)
        if cols == 1: Rules.bounds["X"] = D            # symbols 0 .. n_features-1 (C27 rejects all others)
        if dtype == "i" or cols is not None: Q.cols = D if cols is None else cols; Q.X = F.arr("X", Q.total, Q.cols, dtype=dtype)
        before = dict(I.heap)
        def post(v):
            if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], DictV)): return F.V.ob("returns statistics and log likelihood", False)
            st = I.heap[v[0]]
            F.same("log likelihood of the data", v[1], Q.ssum(lambda s: log(hmmbase.spec_Z(Q, s))))
            base_stats(F, Q, st, params); check(F, Q, st, params)
            F.frame("data", Q.X, before=before); F.frame("model", *[a for a in before[m].values() if isinstance(a, Arr)], before=before)
            F.V.ob("the parameters are not replaced", all(I.heap[m].get(k) is a for k, a in before[m].items() if not k.endswith("_subnorm_")))
        try:
            F.run(lambda: I.call(I.getattr(m, "_do_estep"), (Q.X, Q.L)), post)
            return F.done()
        finally: Rules.bounds.pop("X", None)
    return go


CONF = lambda first: [("log", first, "multi"), ("scaling", first, "multi"), ("log", first, "one"), ("scaling", first, "one")]


@task("gaussian E-step", "C06 C07 C08 C09 C12 C13 C24")
def t_estep_gauss():
    def check(ct):
        def f(F, Q, st, params):
            mean = "m" in params or "c" in params; cov = "c" in params
            w = lambda on, f: f if on else (lambda *a: ZERO)
            F.same("posterior mass of every state", st["post"], F.spec((N,), w(mean, lambda j: tsum(Q, lambda s, t: gamma(Q, s, t, j)))))
            F.same("posterior-weighted sum of the data", st["obs"], F.spec((N, D), w(mean, lambda j, d: tsum(Q, lambda s, t: mul(gamma(Q, s, t, j), xat(Q, s, t, d))))))
            if ct in ("spherical", "diag"):
                F.same("posterior-weighted sum of squares", st["obs**2"], F.spec((N, D), w(cov, lambda j, d: tsum(Q, lambda s, t: mul(gamma(Q, s, t, j), xat(Q, s, t, d), xat(Q, s, t, d))))))
            else:
                F.same("posterior-weighted sum of outer products", st["obs*obs.T"], F.spec((N, D, D), w(cov, lambda j, d, e: tsum(Q, lambda s, t: mul(gamma(Q, s, t, j), xat(Q, s, t, d), xat(Q, s, t, e))))))
        return f
    return run_all("gaussian E-step", *[estep(f"_emissions.BaseGaussianHMM {ct}", lambda F, impl, ct=ct: gauss(F, ct, impl), p, mo, impl, check(ct)) for ct in CTS
                                        for impl, p, mo in CONF("stmc") + [("log", "st", "multi"), ("log", "m", "multi"), ("scaling", "c", "multi")]])


def family_model(cls, **attrs):
    def f(F, impl):
        m = build(F, "hmm", cls, impl); h = F.I.heap[m]; h["n_features"] = D
        if cls == "PoissonHMM": h["lambdas_"] = F.arr("lb", N, D, kind="nonneg")
        else: h["emissionprob_"] = F.arr("ep", N, D, kind="nonneg")
        h.update(attrs); return m
    return f


@task("count E-steps", "C06 C07 C09 C11 C12 C13 C24")
def t_estep_count():
    def pois(F, Q, st, params):
        on = "l" in params
        F.same("posterior mass of every state", st["post"], F.spec((N,), lambda j: tsum(Q, lambda s, t: gamma(Q, s, t, j)) if on else ZERO))
        F.same("posterior-weighted sum of the counts", st["obs"], F.spec((N, D), lambda j, d: tsum(Q, lambda s, t: mul(gamma(Q, s, t, j), xat(Q, s, t, d, "I"))) if on else ZERO))
    def mult(F, Q, st, params):
        F.same("posterior-weighted sum of the counts", st["obs"], F.spec((N, D), lambda j, d: tsum(Q, lambda s, t: mul(gamma(Q, s, t, j), xat(Q, s, t, d, "I"))) if "e" in params else ZERO))
    def catg(F, Q, st, params):
        F.same("posterior mass of every symbol", st["obs"], F.spec((N, D), lambda j, d: tsum(Q, lambda s, t: mul(ite(eq(xat(Q, s, t, ZERO, "I"), d), ONE, ZERO), gamma(Q, s, t, j))) if "e" in params else ZERO))
    out = []
    for impl, p, mo in CONF("stA") + [("log", "st", "multi"), ("scaling", "A", "multi")]:
        out.append(estep("_emissions.BasePoissonHMM", family_model("PoissonHMM"), p.replace("A", "l"), mo, impl, pois, "i"))
        out.append(estep("_emissions.BaseMultinomialHMM", family_model("MultinomialHMM", n_trials=5), p.replace("A", "e"), mo, impl, mult, "i"))
        out.append(estep("_emissions.BaseCategoricalHMM", family_model("CategoricalHMM"), p.replace("A", "e"), mo, impl, catg, "i", 1))
    return run_all("count E-steps", *out)


def gmm_priors(F, m, ct):
    sh = gmm_cov_shape(ct); wsh = {"spherical": (N, M), "diag": (N, M, D), "tied": (N,), "full": (N, M)}[ct]
    F.I.heap[m].update(weights_prior=F.arr("wpr", N, M), means_prior=F.arr("mpr", N, M, D), means_weight=F.arr("mw", N, M), covars_prior=F.arr("cpr", *sh), covars_weight=F.arr("cwt", *wsh))


@task("mixture E-step", "C06 C07 C08 C09 C12 C13 C24")
def t_estep_gmm():
    def mk_(ct):
        def f(F, impl):
            dens_contract(F); m = gmm(F, ct, impl); gmm_priors(F, m, ct); return m
        return f
    def check(ct):
        def f(F, Q, st, params):
            r = lambda s, t: vec_("X", add(Q.off(s), t))
            def g(s, t, i, k):
                return div(mul(gamma(Q, s, t, i), app("wt", i, k), gdens(ct, r(s, t), i, k)), gmix(ct, r(s, t), i))
            F.same("posterior mass of every component", st["post_mix_sum"], F.spec((N, M), lambda i, k: tsum(Q, lambda s, t: g(s, t, i, k))))
            F.same("posterior mass of every state", st["post_sum"], F.spec((N,), lambda i: tsum(Q, lambda s, t: gamma(Q, s, t, i))))
            if "m" in params: F.same("prior plus posterior-weighted sum of the data", st["m_n"], F.spec((N, M, D), lambda i, k, d: add(mul(app("mw", i, k), app("mpr", i, k, d)), tsum(Q, lambda s, t: mul(g(s, t, i, k), xat(Q, s, t, d))))))
            if "c" not in params: return
            z = lambda s, t, i, k, d: sub(xat(Q, s, t, d), app("mu", i, k, d))
            e, k_ = fresh("b"), fresh("b")
            want = {"full": lambda i, k, d, e: tsum(Q, lambda s, t: mul(g(s, t, i, k), z(s, t, i, k, d), z(s, t, i, k, e))),
                    "diag": lambda i, k, d: tsum(Q, lambda s, t: mul(g(s, t, i, k), z(s, t, i, k, d), z(s, t, i, k, d))),
                    "spherical": lambda i, k: tsum(Q, lambda s, t: mul(g(s, t, i, k), ssum(e, D, mul(z(s, t, i, k, e), z(s, t, i, k, e))))),
                    "tied": lambda i, d, e: tsum(Q, lambda s, t: ssum(k_, M, mul(g(s, t, i, k_), z(s, t, i, k_, d), z(s, t, i, k_, e))))}[ct]
            F.same("posterior-weighted scatter about the component means", st["c_n"], F.spec(gmm_cov_shape(ct), want))
        return f
    return run_all("mixture E-step", *[estep(f"_emissions.BaseGMMHMM {ct}", mk_(ct), p, mo, impl, check(ct)) for ct in CTS for impl, p, mo in CONF("stmcw") + [("log", "stw", "multi"), ("scaling", "m", "multi"), ("log", "c", "multi")]])


# ------------------------------------------------------------------ M-steps
# The statistics handed to _do_mstep are those of the E-step contracts: sums over the rows t < T of posterior weights
# g(t, c) (times data).  "s" and "t" statistics are arbitrary nonnegative expected counts.
NONNEG.add("g")


def g_(t, c): return app("g", t, c)
def x_(t, d): return app("X", t, d)
def post_(c): t = fresh("b"); return ssum(t, T_, g_(t, c))
def wsum(f): t = fresh("b"); return ssum(t, T_, f(t))


def base_stat(F, **kw):
    d = dict(nobs=S, start=F.arr("st", N, kind="nonneg"), trans=F.arr("tr", N, N, kind="nonneg")); d.update(kw); return d


def prior(F, h, name, kind, *shape):
    """a scalar or array hyper-parameter; returns its value at an index"""
    if kind == "array": h[name] = F.arr("h_" + name, *shape); return lambda *ix: app("h_" + name, *ix)
    v = sym("h_" + name, "R"); h[name] = v; return lambda *ix: v


def floor0(t): return ite(lt(t, 0), ZERO, t)


def norm_of(f, n, ix):
    """entry / row sum where the row sum is positive"""
    w = fresh("b"); s = ssum(w, n, f(*ix[:-1], w)); return div(f(*ix), ite(eq(s, 0), ONE, s))


def base_mstep_post(F, m, h0, params, sp, tp):
    """startprob_ / transmat_ after BaseHMM._do_mstep; entries that are exactly zero stay zero"""
    I = F.I; h = I.heap[m]
    a = lambda i: floor0(add(sub(sp(i), 1), app("st", i)))
    b = lambda i, j: floor0(add(sub(tp(i, j), 1), app("tr", i, j)))
    za = lambda i: ite(eq(app("startprob", i), 0), ZERO, a(i)); zb = lambda i, j: ite(eq(app("transmat", i, j), 0), ZERO, b(i, j))
    if "s" in params: F.same("start probabilities: normalised prior + expected starts, structural zeros kept", h["startprob_"], F.spec((N,), lambda i: norm_of(za, N, (i,))))
    else: F.V.ob("start probabilities untouched", h["startprob_"] is h0["startprob_"])
    if "t" in params: F.same("transition matrix: normalised prior + expected transitions, structural zeros kept", h["transmat_"], F.spec((N, N), lambda i, j: norm_of(zb, N, (i, j))))
    else: F.V.ob("transition matrix untouched", h["transmat_"] is h0["transmat_"])


def mstep(name, setup, params, post, sk="scalar", exc=None):
    """setup(F) -> model, stats dict; post(F, m, heap before, params)"""
    def go():
        F = Fn(f"{name}._do_mstep[params={params!r} {sk} priors]"); I = F.I
        m, st = setup(F, sk); h = I.heap[m]; h["params"] = params
        sp = prior(F, h, "startprob_prior", sk, N); tp = prior(F, h, "transmat_prior", sk, N, N)
        h0 = dict(h); cells = {a.cell: I.heap[a.cell] for a in list(h0.values()) + list(st.values()) if isinstance(a, Arr)}
        sd = F.dict(**st)
        if "s" in params:            # precondition: some allowed state keeps a positive start total
            i = fresh("b"); I.ctx = I.ctx.extend(pos(ssum(i, N, ite(eq(app("startprob", i), 0), ZERO, floor0(add(sub(sp(i), 1), app("st", i)))))))
        def po(v):
            base_mstep_post(F, m, h0, params, sp, tp); post(F, m, h0, params)
            trained = set(post.trained(params)) | ({"startprob_"} if "s" in params else set()) | ({"transmat_"} if "t" in params else set())
            for k, old in h0.items():
                if k not in trained: F.V.ob(f"{k} untouched", I.heap[m].get(k) is old and (not isinstance(old, Arr) or I.heap[old.cell] is cells[old.cell] or I.heap[old.cell][1] is cells[old.cell][1]))
            F.V.ob("no other attribute appears", set(I.heap[m]) == set(h0))
        F.run(lambda: I.call(I.getattr(m, "_do_mstep"), (sd,)), po, exc)
        return F.done()
    return go


def spec_of(trained):
    def d(f): f.trained = lambda params: {trained[k] for k in trained if k in params}; return f
    return d


@task("base M-step", "C06 C09 C10 C11 C12")
def t_mstep_base():
    def setup(F, sk):
        m = build(F, "base", "BaseHMM"); return m, base_stat(F)
    post = spec_of({})(lambda F, m, h0, params: None)
    return run_all("base M-step", *[mstep("base.BaseHMM", setup, p, post, sk) for p in ("st", "s", "t", "") for sk in ("scalar", "array")])


@task("gaussian M-step", "C07 C09 C10 C12 C16")
def t_mstep_gauss():
    def one(ct, params, sk):
        P = {}
        def setup(F, sk):
            I = F.I; m = gauss(F, ct); h = I.heap[m]
            P["mp"] = prior(F, h, "means_prior", sk, N, D); P["mw"] = prior(F, h, "means_weight", "scalar")
            P["cp"] = prior(F, h, "covars_prior", sk, *(cov_shape(ct) if ct != "spherical" else (N, D))); P["cw"] = prior(F, h, "covars_weight", "scalar")
            NONNEG.update({"h_means_weight", "h_covars_weight"})
            st = base_stat(F, post=I.arr((N,), post_), obs=I.arr((N, D), lambda c, d: wsum(lambda t: mul(g_(t, c), x_(t, d)))))
            if ct in ("spherical", "diag"): st["obs**2"] = I.arr((N, D), lambda c, d: wsum(lambda t: mul(g_(t, c), x_(t, d), x_(t, d))))
            else: st["obs*obs.T"] = I.arr((N, D, D), lambda c, d, e: wsum(lambda t: mul(g_(t, c), x_(t, d), x_(t, e))))
            return m, st
        @spec_of({"m": "means_", "c": "_covars_"})
        def post(F, m, h0, params):
            I = F.I; h = I.heap[m]; mw = lambda c: P["mw"]()
            if "m" in params: F.same("means: posterior mean under the prior", h["means_"], F.spec((N, D), lambda c, d: div(add(mul(mw(c), P["mp"](c, d)), wsum(lambda t: mul(g_(t, c), x_(t, d)))), add(mw(c), post_(c)))))
            if "c" not in params: return
            mu = lambda c, d: tm(I.at(h["means_"], (c, d)))
            dm = lambda c, d: sub(mu(c, d), P["mp"](c, d))
            sc = lambda c, d, e: add(mul(mw(c), dm(c, d), dm(c, e)), wsum(lambda t: mul(g_(t, c), sub(x_(t, d), mu(c, d)), sub(x_(t, e), mu(c, e)))))
            if ct in ("spherical", "diag"):
                den = lambda c: add(floor0(sub(P["cw"](), 1)), post_(c))
                f1 = num(Fraction(1, 100000))
                v = lambda c, d: div(add(P["cp"](c, d), sc(c, d, d)), ite(lt(den(c), f1), f1, den(c)))
                if ct == "diag": want = v
                else:
                    def want(c, d):
                        e = fresh("b"); return div(ssum(e, D, v(c, e)), D)
                F.same("variances: prior plus weighted scatter about the new means", h["_covars_"], F.spec((N, D), want))
            else:
                cwt = floor0(sub(P["cw"](), D)); c_ = fresh("b")
                if ct == "tied": want = lambda d, e: div(add(P["cp"](d, e), ssum(c_, N, sc(c_, d, e))), add(cwt, ssum(c_, N, post_(c_))))
                else: want = lambda c, d, e: div(add(P["cp"](c, d, e), sc(c, d, e)), add(cwt, post_(c)))
                F.same("covariances: prior plus weighted scatter about the new means", h["_covars_"], F.spec(cov_shape(ct), want))
        return mstep(f"hmm.GaussianHMM {ct}", setup, params, post, sk)
    return run_all("gaussian M-step", *[one(ct, p, sk) for ct in CTS for p, sk in (("stmc", "scalar"), ("stmc", "array"), ("m", "scalar"), ("c", "scalar"), ("st", "scalar"))])


@task("count M-steps", "C07 C09 C10 C11 C12")
def t_mstep_count():
    def poisson(params, sk):
        P = {}
        def setup(F, sk):
            m = family_model("PoissonHMM")(F, "log"); h = F.I.heap[m]
            P["a"] = prior(F, h, "lambdas_prior", sk, N, D); P["b"] = prior(F, h, "lambdas_weight", sk, N, ONE if sk == "array" else ONE)
            return m, base_stat(F, post=F.I.arr((N,), post_), obs=F.I.arr((N, D), lambda c, d: wsum(lambda t: mul(g_(t, c), x_(t, d)))))
        @spec_of({"l": "lambdas_"})
        def post(F, m, h0, params):
            if "l" in params: F.same("rates: posterior mean count under the Gamma prior", F.I.heap[m]["lambdas_"], F.spec((N, D), lambda c, d: div(add(P["a"](c, d), wsum(lambda t: mul(g_(t, c), x_(t, d)))), add(P["b"](c, ZERO), post_(c)))))
        return mstep("hmm.PoissonHMM", setup, params, post, sk)
    def cat(params, sk):
        P = {}
        def setup(F, sk):
            m = family_model("CategoricalHMM")(F, "log"); P["e"] = prior(F, F.I.heap[m], "emissionprob_prior", sk, N, D)
            return m, base_stat(F, obs=F.arr("ob", N, D, kind="nonneg"))
        @spec_of({"e": "emissionprob_"})
        def post(F, m, h0, params):
            if "e" in params: F.same("symbol probabilities: normalised prior + expected symbol counts", F.I.heap[m]["emissionprob_"], F.spec((N, D), lambda c, d: norm_of(lambda c, d: floor0(add(sub(P["e"](c, d), 1), app("ob", c, d))), D, (c, d))))
        return mstep("hmm.CategoricalHMM", setup, params, post, sk)
    def mult(params, sk):
        def setup(F, sk):
            m = family_model("MultinomialHMM", n_trials=5)(F, "log"); return m, base_stat(F, obs=F.arr("ob", N, D, kind="nonneg"))
        @spec_of({"e": "emissionprob_"})
        def post(F, m, h0, params):
            w = fresh("b")
            if "e" in params: F.same("category probabilities: expected share of every category", F.I.heap[m]["emissionprob_"], F.spec((N, D), lambda c, d: div(app("ob", c, d), ssum(w, D, app("ob", c, w)))))
        return mstep("hmm.MultinomialHMM", setup, params, post, sk)
    out = []
    for sk in ("scalar", "array"):
        for f, k in ((poisson, "l"), (cat, "e"), (mult, "e")):
            for p in ("st" + k, k, "st"): out.append(f(p, sk))
    return run_all("count M-steps", *out)


@task("mixture M-step", "C08 C09 C10 C12")
def t_mstep_gmm():
    def one(ct, params):
        def setup(F, sk):
            I = F.I; m = gmm(F, ct); gmm_priors(F, m, ct)
            return m, base_stat(F, post_mix_sum=F.arr("pm", N, M, kind="nonneg"), post_sum=F.arr("ps", N, kind="nonneg"), m_n=F.arr("mn", N, M, D), c_n=F.arr("cn", *gmm_cov_shape(ct)))
        @spec_of({"m": "means_", "c": "covars_", "w": "weights_"})
        def post(F, m, h0, params):
            I = F.I; h = I.heap[m]; k_ = fresh("b"); d_ = fresh("b")
            if "w" in params: F.same("mixture weights: expected share of every component under the prior", h["weights_"], F.spec((N, M), lambda i, k: div(add(app("pm", i, k), sub(app("wpr", i, k), 1)), add(app("ps", i), ssum(k_, M, sub(app("wpr", i, k_), 1))))))
            mu = lambda i, k, d: tm(I.at(h["means_"], (i, k, d)))
            if "m" in params:
                w = lambda i, k: tm(I.at(h["weights_"], (i, k)))
                def den(i, k):
                    empty = and_(eq(w(i, k), 0), binder("forall", d_, D, eq(app("mn", i, k, d_), 0)))
                    return ite(empty, ONE, add(app("pm", i, k), app("mw", i, k)))
                F.same("means: prior plus weighted data over the total weight", h["means_"], F.spec((N, M, D), lambda i, k, d: div(app("mn", i, k, d), den(i, k))))
            if "c" not in params: return
            z = lambda i, k, d: sub(mu(i, k, d), app("mpr", i, k, d)); lm = lambda i, k: app("mw", i, k)
            want = {"full": lambda i, k, d, e: div(add(app("cpr", i, k, e, d), mul(lm(i, k), z(i, k, d), z(i, k, e)), app("cn", i, k, d, e)), add(app("pm", i, k), app("cwt", i, k), D, 2)),
                    "diag": lambda i, k, d: div(add(mul(lm(i, k), z(i, k, d), z(i, k, d)), mul(2, app("cwt", i, k, d)), app("cn", i, k, d)), add(app("pm", i, k), 1, mul(2, add(app("cpr", i, k, d), 1)))),
                    "spherical": lambda i, k: div(add(mul(lm(i, k), ssum(d_, D, mul(z(i, k, d_), z(i, k, d_)))), mul(2, app("cwt", i, k)), app("cn", i, k)), add(mul(D, add(app("pm", i, k), 1)), mul(2, add(app("cpr", i, k), 1)))),
                    "tied": lambda i, d, e: div(add(app("cpr", i, e, d), ssum(k_, M, mul(lm(i, k_), z(i, k_, d), z(i, k_, e))), app("cn", i, d, e)), add(app("ps", i), M, app("cwt", i), D, 1))}[ct]
            F.same("covariances: conjugate update from the weighted scatter", h["covars_"], F.spec(gmm_cov_shape(ct), want))
        return mstep(f"hmm.GMMHMM {ct}", setup, params, post, "array")
    return run_all("mixture M-step", *[one(ct, p) for ct in CTS for p in ("stmcw", "w", "m", "c", "st")])
