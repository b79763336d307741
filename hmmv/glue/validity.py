"""Validity of what an M-step leaves behind (C10, C11): distributions are non-negative and sum to one, variances are positive,
covariance matrices are symmetric and their quadratic form is a sum of weighted squares, rates are non-negative, exact zeros stay.

The statistics are the E-step contracts' (sums over the rows of non-negative posterior weights g); the goals are stated
on the values the code leaves in the model, not on the specification."""
from .base import *
from .emissions import *
from .emissions import g_, x_, post_, gmm_priors, gmm_cov_shape, base_stat, prior, family_model
from .small import cov_shape
from ..terms import mk
from fractions import Fraction


def after(name, setup, params, goals):
    """runs the real _do_mstep on statistics, then states goals(F, model, heap before)"""
    def go():
        F = Fn(f"{name}._do_mstep[valid afterwards, params={params!r}]"); I = F.I
        m, st = setup(F); h = I.heap[m]; h["params"] = params; h0 = dict(h); sd = F.dict(**st)
        F.run(lambda: I.call(I.getattr(m, "_do_mstep"), (sd,)), lambda v: goals(F, m, h0))
        return F.done()
    return go


def at(F, a, *ix): return tm(F.I.at(a, ix))


def rng(F, *dims):
    """fresh indices in range, added to the assumptions"""
    ix = [fresh("x") for _ in dims]
    F.I.ctx = F.I.ctx.extend(*[c for v, d in zip(ix, dims) for c in (le(0, v), lt(v, num(d)))]); return ix


def powers(t):
    """factors of a product with their exponents; equal factors (up to bound names) are merged"""
    out = {}
    def go(x, e):
        if x.op == "*": [go(y, e) for y in x.a]
        elif x.op == "^" and x.a[1].denominator == 1: go(x.a[0], e * x.a[1])
        else: k = nf.skey(x); out[k] = (x, out.get(k, (x, 0))[1] + e)
    go(t, Fraction(1)); return list(out.values())


def sgn(t, c, d=0):
    """sign by structure: 2 positive, 1 non-negative, 3 zero, -1 non-positive, -2 negative, None unknown"""
    s = nf.sign(t, c)
    if s is not None or d > 40: return s
    op = t.op
    if op == "+":
        if c.decide(lt(0, t)) is True: return 2
        if c.decide(le(0, t)) is True: return 1
        ss = [sgn(x, c, d + 1) for x in t.a]
        return None if any(x not in (1, 2, 3) for x in ss) else 2 if 2 in ss else 3 if set(ss) == {3} else 1
    if op in ("*", "^"):
        r = 2
        for x, e in powers(t):
            s = sgn(x, c, d + 1)
            if s == 3: return 3 if e > 0 else None
            if e % 2 == 0: r = r if s == 2 or r == 3 else 1      # an even power of anything real
            elif s in (1, 2): r = min(r, s) if e > 0 or s == 2 else 1
            else: return None
        return r
    if op == "sum":
        if c.decide(mk("gt0", (t,), "B")) is True: return 2
        v, n, b = t.a; s = sgn(b, c.extend(le(0, v), lt(v, n)), d + 1)
        return 3 if s == 3 else (2 if s == 2 and c.decide(le(1, n)) is True else 1) if s in (1, 2) else None
    if op == "ite":
        q, x, y = t.a; ss = []
        for f, z in ((q, x), (not_(q), y)):
            if c.decide(f) is False: continue
            c2 = c.extend(f); ss.append(2 if f.op == "gt0" and nf.canon(f.a[0], c2) is nf.canon(z, c2) else sgn(z, c2, d + 1))
        if not ss or any(x not in (1, 2, 3) for x in ss): return None
        return 3 if set(ss) == {3} else 1 if 3 in ss or 1 in ss else 2
    return None


def sign_at_least(F, name, t, k, facts=()):
    """t >= 0 (k = 1) or t > 0 (k = 2), from the signs of its parts"""
    c = F.I.ctx.extend(*facts) if facts else F.I.ctx
    s = sgn(t, c)
    ok = s == 2 or k == 1 and s in (1, 3)
    if not ok:
        try: s = sgn(canon(t, c), c); ok = s == 2 or k == 1 and s in (1, 3)
        except nf.Limit: pass
    F.V.ob(name, ok, "" if ok else f"sign not established: {show(t)[:400]}")
    if not ok: F.V.refuted(numeric.refute_goal, le(0, t) if k == 1 else lt(0, t), c)


def split(t, j):
    """(f, r) with t = f * r and j not in r"""
    if j not in nf.fv(t): return ONE, t
    if t.op == "*":
        f, r = [], []
        for x in t.a: a, b = split(x, j); f.append(a); r.append(b)
        return mul(*f), mul(*r)
    if t.op == "ite" and ZERO in t.a[1:] and j in nf.fv(t.a[0]):
        k = 2 if t.a[1] is ZERO else 1; f, r = split(t.a[k], j)
        return (ite(t.a[0], ZERO, f) if k == 2 else ite(t.a[0], f, ZERO)), r
    return t, ONE


def distribution(F, name, a, n, lead, total):
    """rows of a (last index < n): entries non-negative, sum one where total(lead) > 0"""
    c0 = F.I.ctx; ix = rng(F, *lead); j, = rng(F, n)
    F.I.ctx = F.I.ctx.extend(*total(*ix))
    sign_at_least(F, f"{name}: no negative entry", at(F, a, *ix, j), 1)
    b = fresh("b"); f, r = split(at(F, a, *ix, b), b)
    for x in nf.walk(r):        # the guard against a zero total does not apply
        if x.op == "ite" and F.I.ctx.decide(x.a[0]) is False: r = subst(r, {x: x.a[2]})
    if r is ONE: F.V.eqv(F.I, f"{name}: sums to one", ssum(b, n, f), ONE)
    else: F.V.eqv(F.I, f"{name}: sums to one", ssum(b, n, f), pw(r, -1))
    F.I.ctx = c0


def zeros_kept(F, name, new, old, *dims):
    c0 = F.I.ctx; ix = rng(F, *dims); F.I.ctx = F.I.ctx.extend(eq(app(old, *ix), 0))
    F.V.eqv(F.I, f"{name}: an exact zero stays exactly zero", at(F, new, *ix), ZERO); F.I.ctx = c0


def spd(F, name, a, lead, den, form, facts=()):
    """the matrices a[lead] are symmetric, and den * v'a v is the given sum of weighted squares, which is non-negative"""
    c0 = F.I.ctx; ix = rng(F, *lead); d, e = rng(F, D, D)
    if facts: F.I.ctx = F.I.ctx.extend(*facts(*ix))
    F.V.eqv(F.I, f"{name}: symmetric", at(F, a, *ix, d, e), at(F, a, *ix, e, d))
    b, c = fresh("b"), fresh("b"); v = lambda d: app("vv", d)
    q = ssum(b, D, ssum(c, D, mul(v(b), v(c), at(F, a, *ix, b, c))))
    F.V.eqv(F.I, f"{name}: the quadratic form is a weighted sum of squares over the total weight", q, div(form(*ix), den(*ix)))
    sign_at_least(F, f"{name}: positive semi-definite", div(form(*ix), den(*ix)), 1)
    F.I.ctx = c0


def dot(f):
    b = fresh("b"); return ssum(b, D, mul(app("vv", b), f(b)))


def sq(t): return mul(t, t)


# ------------------------------------------------------------------ start and transition probabilities
@task("validity of start and transition probabilities", "C10 C11")
def t_chain():
    def one(kind, params):
        P = {}
        def setup(F):
            m = build(F, "base", "BaseHMM"); h = F.I.heap[m]
            P["s"] = prior(F, h, "startprob_prior", kind, N); P["t"] = prior(F, h, "transmat_prior", kind, N, N)
            if "s" in params:
                i = fresh("b"); F.I.ctx = F.I.ctx.extend(pos(ssum(i, N, ite(eq(app("startprob", i), 0), ZERO, floor0(add(sub(P["s"](i), 1), app("st", i)))))))
            return m, base_stat(F)
        def goals(F, m, h0):
            h = F.I.heap[m]
            if "s" in params:
                distribution(F, "start distribution", h["startprob_"], N, (), lambda: ())
                zeros_kept(F, "start distribution", h["startprob_"], "startprob", N)
            if "t" in params:
                def tot(i):
                    w = fresh("b"); return (pos(ssum(w, N, ite(eq(app("transmat", i, w), 0), ZERO, floor0(add(sub(P["t"](i, w), 1), app("tr", i, w)))))),)
                distribution(F, "transition row", h["transmat_"], N, (N,), tot)
                zeros_kept(F, "transition matrix", h["transmat_"], "transmat", N, N)
        return after(f"base.BaseHMM {kind} priors", setup, params, goals)
    return run_all("validity of start and transition probabilities", *[one(k, p) for k in ("scalar", "array") for p in ("st", "s", "t")])


# ------------------------------------------------------------------ emission tables, rates, mixture weights
@task("validity of count emissions", "C10")
def t_tables():
    def cat(kind):
        P = {}
        def setup(F):
            m = family_model("CategoricalHMM")(F, "log"); P["e"] = prior(F, F.I.heap[m], "emissionprob_prior", kind, N, D)
            return m, base_stat(F, obs=F.arr("ob", N, D, kind="nonneg"))
        def goals(F, m, h0):
            def tot(c):
                w = fresh("b"); return (pos(ssum(w, D, floor0(add(sub(P["e"](c, w), 1), app("ob", c, w))))),)
            distribution(F, "symbol probabilities", F.I.heap[m]["emissionprob_"], D, (N,), tot)
        return after(f"hmm.CategoricalHMM {kind} prior", setup, "e", goals)
    def mult():
        def setup(F):
            m = family_model("MultinomialHMM", n_trials=5)(F, "log"); return m, base_stat(F, obs=F.arr("ob", N, D, kind="nonneg"))
        def goals(F, m, h0):
            def tot(c):
                w = fresh("b"); return (pos(ssum(w, D, app("ob", c, w))),)
            distribution(F, "category probabilities", F.I.heap[m]["emissionprob_"], D, (N,), tot)
        return after("hmm.MultinomialHMM", setup, "e", goals)
    def pois(kind):
        P = {}
        def setup(F):
            m = family_model("PoissonHMM")(F, "log"); h = F.I.heap[m]
            P["a"] = prior(F, h, "lambdas_prior", kind, N, D); P["b"] = prior(F, h, "lambdas_weight", kind, N, ONE)
            NONNEG.update({"h_lambdas_prior", "h_lambdas_weight", "X"})
            return m, base_stat(F, post=F.I.arr((N,), post_), obs=F.I.arr((N, D), lambda c, d: wsum(lambda t: mul(g_(t, c), x_(t, d)))))
        def goals(F, m, h0):
            c0 = F.I.ctx; c, d = rng(F, N, D); F.I.ctx = F.I.ctx.extend(pos(post_(c)))
            sign_at_least(F, "rates: non-negative", at(F, F.I.heap[m]["lambdas_"], c, d), 1); F.I.ctx = c0
        return after(f"hmm.PoissonHMM {kind} prior", setup, "l", goals)
    def weights():
        """post_sum is the sum of post_mix_sum over the components (lemma of the mixture E-step)"""
        def setup(F):
            m = gmm(F, "diag"); gmm_priors(F, m, "diag")
            NONNEG.add("wpm1"); I = F.I; I.heap[m]["weights_prior"] = I.arr((N, M), lambda i, k: add(ONE, app("wpm1", i, k)))      # priors >= 1
            k = fresh("b")
            return m, base_stat(F, post_mix_sum=F.arr("pm", N, M, kind="nonneg"), post_sum=I.arr((N,), lambda i: ssum(k, M, app("pm", i, k))), m_n=F.arr("mn", N, M, D), c_n=F.arr("cn", N, M, D))
        def goals(F, m, h0):
            def tot(i):
                k = fresh("b"); return (pos(ssum(k, M, app("pm", i, k))),)
            distribution(F, "mixture weights", F.I.heap[m]["weights_"], M, (N,), tot)
        return after("hmm.GMMHMM", setup, "w", goals)
    return run_all("validity of count emissions", cat("scalar"), cat("array"), mult(), pois("scalar"), pois("array"), weights())


# ------------------------------------------------------------------ covariances
@task("validity of Gaussian covariances", "C10")
def t_gauss_cov():
    def one(ct, params):
        P = {}
        def setup(F):
            I = F.I; m = gauss(F, ct); h = I.heap[m]
            P["mp"] = prior(F, h, "means_prior", "array", N, D); P["mw"] = prior(F, h, "means_weight", "scalar")
            P["cp"] = prior(F, h, "covars_prior", "scalar"); P["cw"] = prior(F, h, "covars_weight", "scalar")
            NONNEG.update({"h_means_weight", "h_covars_weight", "h_covars_prior"})
            if ct in ("spherical", "diag"): POS.add("h_covars_prior")       # or non-degenerate data
            st = base_stat(F, post=I.arr((N,), post_), obs=I.arr((N, D), lambda c, d: wsum(lambda t: mul(g_(t, c), x_(t, d)))))
            if ct in ("spherical", "diag"): st["obs**2"] = I.arr((N, D), lambda c, d: wsum(lambda t: mul(g_(t, c), x_(t, d), x_(t, d))))
            else: st["obs*obs.T"] = I.arr((N, D, D), lambda c, d, e: wsum(lambda t: mul(g_(t, c), x_(t, d), x_(t, e))))
            return m, st
        def goals(F, m, h0):
            I = F.I; h = I.heap[m]; mu = lambda c, d: at(F, h["means_"], c, d); dm = lambda c, d: sub(mu(c, d), P["mp"](c, d)); V = h["_covars_"]
            if ct in ("spherical", "diag"):
                c0 = I.ctx; c, d = rng(F, N, D); b = fresh("b")
                num_ = lambda c, d: add(P["cp"](), mul(P["mw"](), sq(dm(c, d))), wsum(lambda t: mul(g_(t, c), sq(sub(x_(t, d), mu(c, d))))))
                den = add(floor0(sub(P["cw"](), 1)), post_(c)); f1 = num(Fraction(1, 100000)); den = ite(lt(den, f1), f1, den)
                form = div(num_(c, d), den) if ct == "diag" else div(ssum(b, D, div(num_(c, b), den)), D)
                F.V.eqv(I, "variance is a sum of weighted squares and the prior over the total weight", at(F, V, c, d), form)
                sign_at_least(F, "variance positive", form, 2)
                if ct == "spherical":
                    e, = rng(F, D); F.V.eqv(I, "one variance per state", at(F, V, c, d), at(F, V, c, e))
                I.ctx = c0; return
            qf = lambda c: add(mul(P["mw"](), sq(dot(lambda d: dm(c, d)))), wsum(lambda t: mul(g_(t, c), sq(dot(lambda d: sub(x_(t, d), mu(c, d)))))))
            pr = mul(P["cp"](), sq(dot(lambda d: ONE))); cwt = floor0(sub(P["cw"](), D)); c_ = fresh("b")
            if ct == "tied": spd(F, "tied covariance", V, (), lambda: add(cwt, ssum(c_, N, post_(c_))), lambda: add(pr, ssum(c_, N, qf(c_))), lambda: (pos(ssum(c_, N, post_(c_))),))
            else: spd(F, "covariance of a state", V, (N,), lambda c: add(cwt, post_(c)), lambda c: add(pr, qf(c)), lambda c: (pos(post_(c)),))
        return after(f"hmm.GaussianHMM {ct}", setup, params, goals)
    return run_all("validity of Gaussian covariances", *[one(ct, p) for ct in CTS for p in ("mc", "c")])


@task("validity of mixture covariances", "C10")
def t_gmm_cov():
    NONNEG.add("gk")
    gk = lambda t, i, k: app("gk", t, i, k)
    pm = lambda i, k: wsum(lambda t: gk(t, i, k))
    z = lambda t, i, k, d: sub(x_(t, d), app("mu", i, k, d))
    def one(ct):
        """priors: covars_prior symmetric positive semi-definite (given as the sum of squares it is), weights making the totals positive"""
        def setup(F):
            NONNEG.add("gk"); I = F.I; m = gmm(F, ct); gmm_priors(F, m, ct); h = I.heap[m]; k_ = fresh("b"); e = fresh("b")
            NONNEG.update({"mw", "cwp", "pq"}); wsh = {"spherical": (N, M), "diag": (N, M, D), "tied": (N,), "full": (N, M)}[ct]
            # the default weights cancel the constants of the total; larger ones add to it
            base = {"full": lambda *ix: sub(app("cwp", *ix), add(D, 2)), "tied": lambda *ix: sub(app("cwp", *ix), add(M, add(D, 1))), "diag": lambda *ix: app("cwp", *ix), "spherical": lambda *ix: app("cwp", *ix)}[ct]
            h["covars_weight"] = I.arr(wsh, base)
            if ct == "diag": h["covars_prior"] = I.arr((N, M, D), lambda i, k, d: sub(app("pq", i, k, d), num(Fraction(3, 2))))
            elif ct == "spherical": h["covars_prior"] = I.arr((N, M), lambda i, k: sub(app("pq", i, k), div(add(D, 2), 2)))
            else:
                q = fresh("b"); fac = lambda *ix: ssum(q, D, mul(app("pf", *ix[:-2], q, ix[-2]), app("pf", *ix[:-2], q, ix[-1])))
                h["covars_prior"] = I.arr(gmm_cov_shape(ct), fac)
            cn = {"full": lambda i, k, d, e: wsum(lambda t: mul(gk(t, i, k), z(t, i, k, d), z(t, i, k, e))), "diag": lambda i, k, d: wsum(lambda t: mul(gk(t, i, k), sq(z(t, i, k, d)))),
                  "spherical": lambda i, k: wsum(lambda t: mul(gk(t, i, k), ssum(e, D, sq(z(t, i, k, e))))), "tied": lambda i, d, e: wsum(lambda t: ssum(k_, M, mul(gk(t, i, k_), z(t, i, k_, d), z(t, i, k_, e))))}[ct]
            return m, base_stat(F, post_mix_sum=I.arr((N, M), pm), post_sum=I.arr((N,), lambda i: wsum(lambda t: ssum(k_, M, gk(t, i, k_)))), m_n=F.arr("mn", N, M, D), c_n=I.arr(gmm_cov_shape(ct), cn))
        def goals(F, m, h0):
            I = F.I; h = I.heap[m]; V = h["covars_"]; b, k_, q = fresh("b"), fresh("b"), fresh("b")
            dz = lambda i, k, d: sub(app("mu", i, k, d), app("mpr", i, k, d))
            if ct in ("diag", "spherical"):
                c0 = I.ctx; i, k = rng(F, N, M); I.ctx = I.ctx.extend(pos(pm(i, k)))
                if ct == "diag":
                    d, = rng(F, D); form = div(add(mul(app("mw", i, k), sq(dz(i, k, d))), mul(2, app("cwp", i, k, d)), wsum(lambda t: mul(gk(t, i, k), sq(z(t, i, k, d))))), add(pm(i, k), mul(2, app("pq", i, k, d)))); got = at(F, V, i, k, d)
                else:
                    form = div(add(mul(app("mw", i, k), ssum(b, D, sq(dz(i, k, b)))), mul(2, app("cwp", i, k)), wsum(lambda t: mul(gk(t, i, k), ssum(b, D, sq(z(t, i, k, b)))))), add(mul(D, pm(i, k)), mul(2, app("pq", i, k)))); got = at(F, V, i, k)
                F.V.eqv(I, "variance is a sum of weighted squares and the prior over the total weight", got, form)
                sign_at_least(F, "variance non-negative", form, 1); I.ctx = c0; return
            sm = lambda f: ssum(k_, M, f(k_))
            pr = lambda *ix: ssum(q, D, sq(dot(lambda d: app("pf", *ix, q, d))))
            one_ = lambda i, k: add(mul(app("mw", i, k), sq(dot(lambda d: dz(i, k, d)))), wsum(lambda t: mul(gk(t, i, k), sq(dot(lambda d: z(t, i, k, d))))))
            tot = lambda i: wsum(lambda t: ssum(k_, M, gk(t, i, k_)))
            if ct == "full": spd(F, "covariance of a component", V, (N, M), lambda i, k: add(app("cwp", i, k), pm(i, k)), lambda i, k: add(pr(i, k), one_(i, k)), lambda i, k: (pos(pm(i, k)),))
            else: spd(F, "covariance shared by a state's components", V, (N,), lambda i: add(app("cwp", i), tot(i)), lambda i: add(pr(i), sm(lambda k: one_(i, k))), lambda i: (pos(tot(i)),))
        return after(f"hmm.GMMHMM {ct}", setup, "c", goals)
    return run_all("validity of mixture covariances", *[one(ct) for ct in CTS])
