"""Contracts of variational inference (base.VariationalBaseHMM, vhmm.py): sub-normalised parameters, expected statistics,
conjugate updates, lower bound, validation."""
from .base import *
from .emissions import (build, CTS, abstract_emission, base_stat, base_stats, estep, vec_, mat_, tsum, xat, gamma, g_, x_, post_, wsum, floor0, CONF, Seqs)
from .kl import dig, Mx, S1, HALF, lga
from .fit import resolved
from . import hmmbase, valid


def psh(ct): return {"full": (N, D, D), "tied": (D, D), "diag": (N, D), "spherical": (N,)}[ct]


def vmodel(F, fam, impl="log", **kw):
    """a VB model with priors and posteriors; fam: 'base', 'categorical' or a covariance type"""
    I = F.I
    if fam == "base": m = build(F, "base", "VariationalBaseHMM", impl, **kw)
    elif fam == "categorical": m = build(F, "vhmm", "VariationalCategoricalHMM", impl, n_features=D, **kw)
    else: m = build(F, "vhmm", "VariationalGaussianHMM", impl, covariance_type=fam, **kw)
    h = I.heap[m]; h["n_features"] = D
    h.update(startprob_=F.arr("sp0", N, kind="nonneg"), transmat_=F.arr("tm0", N, N, kind="nonneg"),
             startprob_prior_=F.arr("spp", N, kind="pos"), startprob_posterior_=F.arr("spq", N, kind="pos"), transmat_prior_=F.arr("tmp", N, N, kind="pos"), transmat_posterior_=F.arr("tmq", N, N, kind="pos"))
    if fam == "categorical": h.update(emissionprob_=F.arr("ep0", N, D, kind="nonneg"), emissionprob_prior_=F.arr("epp", N, D, kind="pos"), emissionprob_posterior_=F.arr("epq", N, D, kind="pos"))
    elif fam != "base":
        s = psh(fam)
        h.update(means_prior_=F.arr("mp", N, D), means_posterior_=F.arr("mq", N, D), beta_prior_=F.arr("bp", N, kind="pos"), beta_posterior_=F.arr("bq", N, kind="pos"), _covars_=F.arr("cov", *s),
                 scale_prior_=F.arr("Sp", *s), scale_posterior_=F.arr("Sq", *s))
        if fam == "tied": h.update(dof_prior_=sym("nup", "R", "pos"), dof_posterior_=sym("nuq", "R", "pos"))
        else: h.update(dof_prior_=F.arr("nup", N, kind="pos"), dof_posterior_=F.arr("nuq", N, kind="pos"))
    for k, a in h.items():       # _check converts them
        if isinstance(a, Arr) and fam not in ("base", "categorical") and not k.startswith(("startprob", "transmat")): a.cell.isfloat = True
    return m


def nu(fam, k, c): return sym("nu" + k, "R", "pos") if fam == "tied" else app("nu" + k, c)


def scale(fam, k, c):
    """full form of the scale matrix of state c, as a function of (i, j)"""
    n = "S" + k
    return {"full": lambda i, j: app(n, c, i, j), "tied": lambda i, j: app(n, i, j), "diag": lambda i, j: ite(eq(i, j), app(n, c, i), ZERO), "spherical": lambda i, j: ite(eq(i, j), app(n, c), ZERO)}[fam]


def elog_dir(name, ix, k, n):
    """E log p_k under the Dirichlet with parameters name(ix, .)"""
    w = fresh("b"); return sub(dig(app(name, *ix, k)), dig(ssum(w, n, app(name, *ix, w))))


FAMS = ("categorical",) + CTS


# ------------------------------------------------------------------ expected log parameters
@task("variational expectations", "C20 C21 C24")
def t_begin():
    def one(fam):
        def go():
            F = Fn(f"{'base.VariationalBaseHMM' if fam == 'base' else 'vhmm.VariationalCategoricalHMM' if fam == 'categorical' else 'vhmm.VariationalGaussianHMM'}._estep_begin{'' if fam in ('base', 'categorical') else '[%s]' % fam}"); I = F.I; m = vmodel(F, fam); h0 = dict(I.heap[m]); before = dict(I.heap)
            def post(v):
                h = I.heap[m]
                F.same("start weights: exp of the expected log start probabilities", h.get("startprob_subnorm_"), F.spec((N,), lambda i: exp(elog_dir("spq", (), i, N))))
                F.same("transition weights: exp of the expected log transition probabilities", h.get("transmat_subnorm_"), F.spec((N, N), lambda i, j: exp(elog_dir("tmq", (i,), j, N))))
                if fam == "categorical": F.same("expected log symbol probabilities", h.get("emissionprob_log_subnorm_"), F.spec((N, D), lambda i, d: elog_dir("epq", (i,), d, D)))
                for k, old in h0.items(): F.V.ob(f"{k} untouched", h.get(k) is old)
                F.frame("parameter", *[a for a in h0.values() if isinstance(a, Arr)], before=before)
            F.run(lambda: I.call(I.getattr(m, "_estep_begin"), ()), post); return F.done()
        return go
    return run_all("variational expectations", *[one(f) for f in ("base", "categorical", "diag")])


def elog_normal(fam, t, c):
    """E log N(x_t | mu_c, L_c^-1) under the normal-Wishart posterior, without the power of 2 pi"""
    v = nu(fam, "q", c); S_ = Mx(scale(fam, "q", c))
    elogdet = add(S1(D, lambda i: dig(div(sub(v, i), 2))), mul(D, app("log", num(2))), neg(app("LOGDET", S_)))
    dx = lambda i: sub(app("X", t, i), app("mq", c, i))
    q = mul(v, S1(D, lambda i: S1(D, lambda j: mul(dx(i), app("INV", S_, i, j), dx(j)))))
    return mul(HALF, sub(elogdet, add(q, div(D, app("bq", c)))))


@task("variational likelihoods", "C20 C21 C24")
def t_sub():
    def one(fam, meth):
        def go():
            F = Fn(f"vhmm.{'VariationalCategoricalHMM' if fam == 'categorical' else 'VariationalGaussianHMM'}.{meth}[{fam}]"); I = F.I; m = vmodel(F, fam); cat = fam == "categorical"
            F.I.assume.append(lambda c, I: True if c.op == "app" and c.a[0] == "PD" else None)
            X = F.arr("X", T_, 1 if cat else D, dtype="i" if cat else "f"); t = fresh("q")
            if cat:
                x = lambda t: app("X", t, ZERO, sort="I"); I.heap[m]["emissionprob_log_subnorm_"] = F.arr("els", N, D)
                I.ctx = I.ctx.extend(binder("forall", t, T_, le(0, x(t))), binder("forall", t, T_, lt(x(t), D)))
                f = lambda t, c: app("els", c, x(t))
            else: f = lambda t, c: elog_normal(fam, t, c)
            before = dict(I.heap)
            def post(v):
                F.same("exp of the expected log density of the row under the state" if "log" not in meth else "expected log density of the row under the state", v, F.spec((T_, N), f if "log" in meth else lambda t, c: exp(f(t, c))))
                F.frame("data", X, before=before); F.frame("parameter", *[a for a in before[m].values() if isinstance(a, Arr)], before=before)
                F.V.ob("the model is unchanged", I.heap[m] == before[m])
            F.run(lambda: I.call(I.getattr(m, meth), (X,)), post); return F.done()
        return go
    return run_all("variational likelihoods", *[one(f, me) for f in FAMS for me in ("_compute_subnorm_log_likelihood", "_compute_subnorm_likelihood")])


# ------------------------------------------------------------------ E-step under the sub-normalised parameters
def vestep_model(fam):
    """_estep_begin and the sub-normalised likelihoods enter by contract: 'startprob', 'transmat' and EM stand for the
    sub-normalised weights of the posteriors in force"""
    def f(F, impl):
        I = F.I; m = vmodel(F, fam, impl); h = I.heap[m]
        h.update(startprob_subnorm_=F.arr("stale_s", N, kind="nonneg"), transmat_subnorm_=F.arr("stale_t", N, N, kind="nonneg"))
        def begin(I, s): I.setk(s, "startprob_subnorm_", F.arr("startprob", N, kind="nonneg")); I.setk(s, "transmat_subnorm_", F.arr("transmat", N, N, kind="nonneg"))
        I.contracts[resolved(F, m, "_estep_begin")] = begin
        return m
    return f


def sub_emission(F, m):
    """after abstract_emission: the ordinary likelihood is another function than the sub-normalised one"""
    I = F.I; ll, l = hmmbase.emission(F); ll0, l0 = hmmbase.emission(F, name="EM0"); NONNEG.add("EM0")
    for n, f in (("_compute_log_likelihood", ll0), ("_compute_likelihood", l0), ("_compute_subnorm_log_likelihood", ll), ("_compute_subnorm_likelihood", l)): I.contracts[resolved(F, m, n)] = f
    I.contracts["hmmlearn.base._AbstractHMM._compute_likelihood"] = l0; I.contracts["hmmlearn.base._AbstractHMM._compute_log_likelihood"] = ll0


@task("variational E-step", "C05 C12 C13 C20 C21 C24")
def t_vestep():
    def gcheck(ct):
        def f(F, Q, st, params):
            mean = "m" in params or "c" in params; cov = "c" in params; w = lambda on, f: f if on else (lambda *a: ZERO)
            F.same("posterior mass of every state", st["post"], F.spec((N,), w(mean, lambda j: tsum(Q, lambda s, t: gamma(Q, s, t, j)))))
            F.same("posterior-weighted sum of the data", st["obs"], F.spec((N, D), w(mean, lambda j, d: tsum(Q, lambda s, t: mul(gamma(Q, s, t, j), xat(Q, s, t, d))))))
            if ct in ("spherical", "diag"): F.same("posterior-weighted sum of squares", st["obs**2"], F.spec((N, D), w(cov, lambda j, d: tsum(Q, lambda s, t: mul(gamma(Q, s, t, j), xat(Q, s, t, d), xat(Q, s, t, d))))))
            else: F.same("posterior-weighted sum of outer products", st["obs*obs.T"], F.spec((N, D, D), w(cov, lambda j, d, e: tsum(Q, lambda s, t: mul(gamma(Q, s, t, j), xat(Q, s, t, d), xat(Q, s, t, e))))))
        return f
    def catg(F, Q, st, params):
        F.same("posterior mass of every symbol", st["obs"], F.spec((N, D), lambda j, d: tsum(Q, lambda s, t: mul(ite(eq(xat(Q, s, t, ZERO, "I"), d), ONE, ZERO), gamma(Q, s, t, j))) if "e" in params else ZERO))
    out = []
    for ct in CTS: out += [estep(f"vhmm.VariationalGaussianHMM {ct}", vestep_model(ct), p, mo, impl, gcheck(ct), sub=sub_emission) for impl, p, mo in (CONF("stmc") if ct == "full" else CONF("stmc")[:2] + [("log", "m", "one")])]
    out += [estep("vhmm.VariationalCategoricalHMM", vestep_model("categorical"), p, mo, impl, catg, "i", 1, sub=sub_emission) for impl, p, mo in CONF("ste") + [("log", "st", "multi"), ("scaling", "e", "multi")]]
    return run_all("variational E-step", *out)


# ------------------------------------------------------------------ conjugate updates
@task("variational M-step", "C12 C20 C21")
def t_vmstep():
    def one(fam, params):
        def go():
            F = Fn(f"{'base.VariationalBaseHMM' if fam == 'base' else 'vhmm.VariationalCategoricalHMM' if fam == 'categorical' else 'vhmm.VariationalGaussianHMM'}._do_mstep[{'' if fam in ('base', 'categorical') else fam + ' '}params={params!r}]"); I = F.I; m = vmodel(F, fam, params=params)
            st = base_stat(F); h = I.heap[m]
            if fam == "categorical": st["obs"] = F.arr("ob", N, D, kind="nonneg")
            elif fam != "base":
                st.update(post=I.arr((N,), post_), obs=I.arr((N, D), lambda c, d: wsum(lambda t: mul(g_(t, c), x_(t, d)))))
                if fam in ("spherical", "diag"): st["obs**2"] = I.arr((N, D), lambda c, d: wsum(lambda t: mul(g_(t, c), x_(t, d), x_(t, d))))
                else: st["obs*obs.T"] = I.arr((N, D, D), lambda c, d, e: wsum(lambda t: mul(g_(t, c), x_(t, d), x_(t, e))))
            h0 = dict(h); before = dict(I.heap); cells = {a.cell: I.heap[a.cell] for a in list(h0.values()) + list(st.values()) if isinstance(a, Arr)}; sd = F.dict(**st)
            def post(v):
                h = I.heap[m]; w = fresh("b"); tr = {"startprob_", "transmat_"}
                sq = (lambda i: add(app("spp", i), app("st", i))) if "s" in params else (lambda i: app("spq", i))
                tq = (lambda i, j: add(app("tmp", i, j), app("tr", i, j))) if "t" in params else (lambda i, j: app("tmq", i, j))
                if "s" in params: tr.add("startprob_posterior_"); F.same("start posterior: prior plus expected starts", h["startprob_posterior_"], F.spec((N,), sq))
                if "t" in params: tr.add("transmat_posterior_"); F.same("transition posterior: prior plus expected transitions", h["transmat_posterior_"], F.spec((N, N), tq))
                F.same("start probabilities: mean of their posterior", h["startprob_"], F.spec((N,), lambda i: div(sq(i), ssum(w, N, sq(w)))))
                F.same("transition matrix: mean of its posterior", h["transmat_"], F.spec((N, N), lambda i, j: div(tq(i, j), ssum(w, N, tq(i, w)))))
                if fam == "categorical":
                    eq_ = (lambda i, d: add(app("epp", i, d), app("ob", i, d))) if "e" in params else (lambda i, d: app("epq", i, d)); tr.add("emissionprob_")
                    if "e" in params: tr.add("emissionprob_posterior_"); F.same("symbol posterior: prior plus expected counts", h["emissionprob_posterior_"], F.spec((N, D), eq_))
                    F.same("symbol probabilities: mean of their posterior", h["emissionprob_"], F.spec((N, D), lambda i, d: div(eq_(i, d), ssum(w, D, eq_(i, w)))))
                elif fam != "base": gauss_post(F, m, fam, params, tr)
                for k, old in h0.items():
                    if k not in tr: F.V.ob(f"{k} untouched", h.get(k) is old)
                    if isinstance(old, Arr): F.V.ob(f"the array {k} held before is not written to", I.heap[old.cell] is cells[old.cell] or I.heap[old.cell][1] is cells[old.cell][1])
                F.V.ob("no other attribute appears", set(h) == set(h0))
                for k, a in st.items():
                    if isinstance(a, Arr): F.V.ob(f"statistics {k} unmodified", I.heap[a.cell] is cells[a.cell] or I.heap[a.cell][1] is cells[a.cell][1])
            F.run(lambda: I.call(I.getattr(m, "_do_mstep"), (sd,)), post); return F.done()
        return go
    return run_all("variational M-step", *[one("base", p) for p in ("st", "s", "t", "")], *[one("categorical", p) for p in ("ste", "e", "st")], *[one(ct, p) for ct in CTS for p in ("stmc", "m", "c", "st")])


def gauss_post(F, m, ct, params, tr):
    I = F.I; h = I.heap[m]
    b = (lambda c: add(app("bp", c), post_(c))) if "m" in params else (lambda c: app("bq", c))
    mu = (lambda c, d: div(add(mul(app("bp", c), app("mp", c, d)), wsum(lambda t: mul(g_(t, c), x_(t, d)))), b(c))) if "m" in params else (lambda c, d: app("mq", c, d))
    if "m" in params:
        tr.update(("beta_posterior_", "means_posterior_"))
        F.same("mean precision: prior plus posterior mass", h["beta_posterior_"], F.spec((N,), b))
        F.same("means: precision-weighted combination of prior mean and data", h["means_posterior_"], F.spec((N, D), mu))
    if "c" not in params: return
    tr.update(("dof_posterior_", "scale_posterior_", "_covars_"))
    # prior mean and weighted data about the posterior mean:  sum g x x' + bp mp mp' - b mu mu'
    S_ = lambda c, d, e: add(wsum(lambda t: mul(g_(t, c), x_(t, d), x_(t, e))), mul(app("bp", c), app("mp", c, d), app("mp", c, e)), mul(-1, b(c), mu(c, d), mu(c, e)))
    w = fresh("b"); e_ = fresh("b")
    if ct == "tied":
        dof = add(nu(ct, "p", None), ssum(w, N, post_(w))); F.same("degrees of freedom: prior plus number of frames", num_(h["dof_posterior_"]), dof)
        sc = lambda d, e: add(app("Sp", d, e), ssum(w, N, S_(w, d, e))); F.same("scale: prior plus scatter", h["scale_posterior_"], F.spec((D, D), sc))
        F.same("covariance: inverse of the mean precision", h["_covars_"], F.spec((D, D), lambda d, e: div(sc(d, e), dof))); return
    dof = lambda c: add(nu(ct, "p", c), post_(c)); F.same("degrees of freedom: prior plus posterior mass", h["dof_posterior_"], F.spec((N,), dof))
    sc = {"full": lambda c, d, e: add(app("Sp", c, d, e), S_(c, d, e)), "diag": lambda c, d: add(app("Sp", c, d), S_(c, d, d)), "spherical": lambda c: add(app("Sp", c), div(ssum(e_, D, S_(c, e_, e_)), D))}[ct]
    F.same("scale: prior plus scatter", h["scale_posterior_"], F.spec(psh(ct), sc))
    F.same("covariances: inverse of the mean precision", h["_covars_"], F.spec(psh(ct), lambda c, *ix: div(sc(c, *ix), dof(c))))


# ------------------------------------------------------------------ lower bound
def kl_contracts(F):
    """the divergences, proved equal to their closed forms in glue/kl.py, as functions of the two laws"""
    I = F.I; K = I.contracts; P = "hmmlearn._kl_divergence."
    def pd(I, a): pass
    K[P + "kl_dirichlet"] = lambda I, q, p: app("KL_DIR", npm.vec(I, I.asarr(q)), npm.vec(I, I.asarr(p)))
    K[P + "kl_multivariate_normal_distribution"] = lambda I, mq, Vq, mp, Vp: app("KL_MVN", npm.vec(I, I.asarr(mq)), npm.mat(I, I.asarr(Vq)), npm.vec(I, I.asarr(mp)), npm.mat(I, I.asarr(Vp)))
    K[P + "kl_wishart_distribution"] = lambda I, nq, Sq, np_, Sp: app("KL_WIS", nt_(I, nq), npm.mat(I, I.asarr(Sq)), nt_(I, np_), npm.mat(I, I.asarr(Sp)))


def nt_(I, v): return nt(I.at(v, ())) if isinstance(v, Arr) else num_(v)


@task("variational lower bound", "C20 C21 C24")
def t_bound():
    def one(fam):
        def go():
            F = Fn(f"{'base.VariationalBaseHMM' if fam == 'base' else 'vhmm.VariationalCategoricalHMM' if fam == 'categorical' else 'vhmm.VariationalGaussianHMM'}._compute_lower_bound{'' if fam in ('base', 'categorical') else '[%s]' % fam}"); I = F.I; m = vmodel(F, fam); kl_contracts(F); before = dict(I.heap)
            F.I.assume.append(lambda c, I: True if c.op == "app" and c.a[0] == "PD" else None)
            LL = sym("LL", "R"); i = fresh("b")
            def V(n, *ix, k=N): d = fresh("l"); return lam((d,), (k,), app(n, *ix, d))
            kl = [app("KL_DIR", V("spq"), V("spp")), ssum(i, N, app("KL_DIR", V("tmq", i), V("tmp", i)))]
            if fam == "categorical": kl.append(ssum(i, N, app("KL_DIR", V("epq", i, k=D), V("epp", i, k=D))))
            elif fam != "base":
                sq = lambda c: scale(fam, "q", c); sp = lambda c: scale(fam, "p", c); n = lambda c: nu(fam, "q", c)
                # E over the precision of the divergence of the conditional normal laws: the mean precision nu inv(scale) enters
                kl.append(ssum(i, N, app("KL_MVN", V("mq", i, k=D), Mx(lambda a, b: div(sq(i)(a, b), mul(app("bq", i), n(i)))), V("mp", i, k=D), Mx(lambda a, b: div(sq(i)(a, b), mul(app("bp", i), n(i)))))))
                W = lambda c: app("KL_WIS", n(c), Mx(sq(c)), nu(fam, "p", c), Mx(sp(c)))
                kl.append(W(None) if fam == "tied" else ssum(i, N, W(i)))
            def post(v):
                F.same("log normaliser minus the divergences of all posteriors from their priors", v, sub(LL, add(*kl)))
                F.frame("parameter", *[a for a in before[m].values() if isinstance(a, Arr)], before=before); F.V.ob("the model is unchanged", I.heap[m] == before[m])
            F.run(lambda: I.call(I.getattr(m, "_compute_lower_bound"), (LL,)), post); return F.done()
        return go
    return run_all("variational lower bound", *[one(f) for f in ("base",) + FAMS])
