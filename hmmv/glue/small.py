"""Contracts of utils, _utils, stats and _kl_divergence."""
from .base import *


# ------------------------------------------------------------------ utils.normalize / log_normalize
def normalized(f, a, ax, b):
    """spec: entry / row sum, rows of sum zero unchanged (b: content before)"""
    nd = a.ndim
    def g(*ix):
        w = fresh("b"); full = list(ix); full[ax] = w
        s = ssum(w, num(a.shape[ax]), f(*full))
        return div(f(*ix), ite(eq(s, 0), ONE, s))
    return g


@task("utils.normalize", "C02 C04 C06 C07 C09 C10 C11 C13")
def t_normalize():
    def one(nd, ax):
        def go():
            F = Fn(f"utils.normalize[{nd}-d axis={ax}]"); I = F.I; fn = F.func("utils", "normalize")
            sh = (N, D, M)[:nd]; a = F.arr("a", *sh, kind="nonneg")
            if nd == 1:
                w = fresh("b"); I.ctx = I.ctx.extend(pos(ssum(w, N, app("a", w))))
            def post(v):
                b = lambda *ix: app("a", *ix)
                F.same("returns nothing", v, None)
                F.same("entries divided by the sum of their row (rows of sum zero unchanged)", a, F.spec(sh, normalized(b, a, ax if ax is not None else 0, b)))
            F.run(lambda: I.call(fn, (a,) if ax is None else (a, ax)), post)
            return F.done()
        return go
    return run_all("utils.normalize", one(1, None), one(2, 1), one(2, -1), one(3, 2))


@task("utils.log_normalize", "C02 C05 C06 C08 C09 C13")
def t_lognorm():
    def one(ax):
        def go():
            F = Fn(f"utils.log_normalize[2-d axis={ax}]"); I = F.I; fn = F.func("utils", "log_normalize")
            NONNEG.add("la"); rows_positive("la", N)       # precondition: every row has a finite entry
            a = I.arr((T_, N), lambda *ix: LogV(app("la", *ix)))
            def post(v):
                w = fresh("b")
                F.same("returns nothing", v, None)
                F.same("log of entry / row sum", a, F.spec((T_, N), lambda t, j: LogV(div(app("la", t, j), ssum(w, N, app("la", t, w))))))
            F.run(lambda: I.call(fn, (a, ax)), post)
            return F.done()
        return go
    return run_all("utils.log_normalize", one(1), one(-1))


# ------------------------------------------------------------------ stats: log densities
def quad(x, mu, P, n):
    """(x - mu)' P (x - mu);  x, mu, P: functions of indices"""
    i, j = fresh("b"), fresh("b")
    return ssum(i, n, ssum(j, n, mul(P(i, j), sub(x(i), mu(i)), sub(x(j), mu(j)))))


def ln2pi(): return log(mul(2, sym("PI", "R", "pos")))


def lnorm_diag(x, mu, v, n):
    """log normal density, diagonal covariance"""
    i, j = fresh("b"), fresh("b")
    return mul(num(Fraction(-1, 2)), add(mul(n, ln2pi()), ssum(j, n, log(v(j))), ssum(i, n, div(pw(sub(x(i), mu(i)), 2), v(i)))))


def lnorm_full(x, mu, C, n):
    """log normal density, covariance matrix C (lam)"""
    return mul(num(Fraction(-1, 2)), add(mul(n, ln2pi()), app("LOGDET", C), quad(x, mu, lambda i, j: app("INV", C, i, j), n)))


def cov_shape(ct): return {"spherical": (N, 1), "diag": (N, D), "tied": (D, D), "full": (N, D, D)}[ct]


def lnormal(ct, x, c, mu="mu", cov="cov"):
    """spec: log density of state c at row x(i) for the stored covariances 'cov' of type ct"""
    m = lambda i: app(mu, c, i)
    if ct == "spherical": return lnorm_diag(x, m, lambda j: app(cov, c, ZERO), D)
    if ct == "diag": return lnorm_diag(x, m, lambda j: app(cov, c, j), D)
    r, s = fresh("l"), fresh("l")
    if ct == "tied": return lnorm_full(x, m, lam((r, s), (D, D), app(cov, r, s)), D)
    return lnorm_full(x, m, lam((r, s), (D, D), app(cov, c, r, s)), D)


@task("stats.log_multivariate_normal_density", "C01 C02 C03 C05 C07 C08 C15 C16")
def t_density():
    def one(ct, sh=None):
        def go():
            F = Fn(f"stats.log_multivariate_normal_density[{ct}{'' if sh is None else ' ' + str(len(sh)) + '-d covars'}]"); I = F.I; fn = F.func("stats", "log_multivariate_normal_density")
            X = F.arr("X", T_, D); mu = F.arr("mu", N, D); s = sh or cov_shape(ct)
            # precondition: variances positive (not below the smallest normal number) / matrices positive definite
            cov = F.arr("cov", *s, kind="pos" if ct in ("spherical", "diag") else "real")
            assume_pd(F)
            if ct in ("spherical", "diag"): nf.Rules.lower["cov"] = TINY
            before = dict(I.heap)
            def post(v):
                if sh is not None and len(sh) == 1: want = F.spec((T_, N), lambda t, c: lnorm_diag(lambda i: app("X", t, i), lambda i: app("mu", c, i), lambda j: app("cov", c), D))
                elif sh is not None: want = F.spec((T_, N), lambda t, c: lnormal("diag", lambda i: app("X", t, i), c))
                else: want = F.spec((T_, N), lambda t, c: lnormal(ct, lambda i: app("X", t, i), c))
                F.same("log of the multivariate normal density", v, want)
                F.frame("argument", X, mu, cov, before=before)
            F.run(lambda: I.call(fn, (X, mu, cov, ct)), post)
            return F.done()
        return go
    def bad():
        F = Fn("stats.log_multivariate_normal_density[singular]"); I = F.I; fn = F.func("stats", "log_multivariate_normal_density")
        X = F.arr("X", T_, D); mu = F.arr("mu", N, D); cov = F.arr("cov", N, D, D)
        I.assume.append(lambda c, I: False if c.op == "app" and c.a[0] == "PD" else None)
        F.run(lambda: I.call(fn, (X, mu, cov, "full")), lambda v: F.V.ob("a matrix that is not positive definite raises", False), lambda e, c: F.V.ob("a matrix that is not positive definite raises ValueError", e.name == "ValueError"))
        F.V.out = [o for o in F.V.out if "returns normally" not in o["name"]]
        return F.done()
    return run_all("stats.log_multivariate_normal_density", one("spherical"), one("spherical", (N,)), one("spherical", (N, D)), one("diag"), one("tied"), one("full"), bad)


def assume_pd(F):
    """precondition: covariance matrices are positive definite; variances are at least the smallest normal double"""
    def a(c, I):
        if c.op == "app" and c.a[0] == "PD": return True
        return None
    F.I.assume.append(a)
    nf.Rules.mono_max = getattr(nf.Rules, "mono_max", [])


# ------------------------------------------------------------------ utils.fill_covars
def fullcov(ct, c, i, j, cov="cov"):
    """spec: entry (i, j) of the covariance matrix of state c for stored covariances of type ct"""
    if ct == "full": return app(cov, c, i, j)
    if ct == "tied": return app(cov, i, j)
    if ct == "diag": return ite(eq(i, j), app(cov, c, i), ZERO)
    return ite(eq(i, j), app(cov, c, ZERO), ZERO)


@task("utils.fill_covars", "C14 C16 C20 C21")
def t_fill():
    def one(ct, sh):
        def go():
            F = Fn(f"utils.fill_covars[{ct} {len(sh)}-d]"); I = F.I; fn = F.func("utils", "fill_covars")
            cov = F.arr("cov", *sh)
            def post(v):
                if ct == "spherical" and len(sh) == 1: want = F.spec((N, D, D), lambda c, i, j: ite(eq(i, j), app("cov", c), ZERO))
                else: want = F.spec((N, D, D), lambda c, i, j: fullcov(ct, c, i, j))
                F.same("full form of the stored covariances", v, want)
            F.run(lambda: I.call(fn, (cov, ct, N, D)), post)
            return F.done()
        return go
    return run_all("utils.fill_covars", one("full", (N, D, D)), one("tied", (D, D)), one("diag", (N, D)), one("spherical", (N, D)), one("spherical", (N, 1)), one("spherical", (N,)))


@task("_utils.distribute_covar_matrix_to_match_covariance_type", "C16")
def t_distribute():
    def one(ct):
        def go():
            F = Fn(f"_utils.distribute_covar_matrix_to_match_covariance_type[{ct}]"); I = F.I; fn = F.func("_utils", "distribute_covar_matrix_to_match_covariance_type")
            cv = F.arr("cv", D, D)
            def post(v):
                r, s = fresh("b"), fresh("b")
                mean = div(ssum(r, D, ssum(s, D, app("cv", r, s))), mul(D, D))
                want = {"spherical": ((N, D), lambda c, i: mean), "diag": ((N, D), lambda c, i: app("cv", i, i)), "tied": ((D, D), lambda i, j: app("cv", i, j)), "full": ((N, D, D), lambda c, i, j: app("cv", i, j))}[ct]
                F.same("stored form of a common covariance matrix", v, F.spec(*want))
            F.run(lambda: I.call(fn, (cv, ct, N)), post)
            return F.done()
        return go
    def bad():
        F = Fn("_utils.distribute_covar_matrix_to_match_covariance_type[unknown]"); I = F.I; fn = F.func("_utils", "distribute_covar_matrix_to_match_covariance_type")
        F.run(lambda: I.call(fn, (F.arr("cv", D, D), "bad", N)), lambda v: F.V.ob("unknown type is rejected", False), lambda e, c: F.V.ob("unknown type raises ValueError", e.name == "ValueError"))
        F.V.out = [o for o in F.V.out if "returns normally" not in o["name"]]; return F.done()
    return run_all("_utils.distribute_covar_matrix_to_match_covariance_type", one("spherical"), one("diag"), one("tied"), one("full"), bad)


# ------------------------------------------------------------------ _utils.split_X_lengths
@task("_utils.split_X_lengths", "C01 C02 C03 C04 C06 C07 C08 C13 C20")
def t_split():
    def none():
        F = Fn("_utils.split_X_lengths[lengths=None]"); I = F.I; fn = F.func("_utils", "split_X_lengths"); X = F.arr("X", T_, D)
        def post(v):
            s = I.seq(v)
            F.V.ob("one sequence: the data itself", isinstance(s, (list, tuple)) and len(s) == 1)
            F.same("one sequence: the rows of X", s[0], F.spec((T_, D), lambda t, d: app("X", t, d)))
        F.run(lambda: I.call(fn, (X, None)), post); return F.done()
    def some():
        F = Fn("_utils.split_X_lengths[lengths]"); I = F.I; fn = F.func("_utils", "split_X_lengths"); X = F.arr("X", T_, D); L = F.arr("len", S, dtype="i")
        w, s = fresh("b"), fresh("b")
        tot = ssum(w, S, app("len", w, sort="I"))
        def post(v):
            q = I.seq(v)
            ps = q.parts if isinstance(q, Seq) else None
            if ps is None or len(ps) != 1 or ps[0][0] != "many": return F.V.ob("one part per length", False, f"{q!r}")
            _, n, k, a = ps[0]
            c0 = I.ctx; kk = fresh("s"); I.ctx = c0.extend(le(0, kk), lt(kk, S))
            a = I.vsub(a, {k: kk}); u = fresh("b")
            F.same("one part per length", num(n), S)
            F.same("length of part s is lengths[s]", num(a.shape[0]), app("len", kk, sort="I"))
            off = ssum(u, kk, app("len", u, sort="I"))
            F.same("part s holds the rows after the preceding parts", a, F.spec((app("len", kk, sort="I"), D), lambda t, d: app("X", add(off, t), d)))
            I.ctx = c0
            F.V.truth(I, "accepted lengths add up to the number of samples", eq(tot, T_))
            F.V.ob("accepted lengths are positive", I.ctx.decide(binder("exists", s, S, lt(app("len", s, sort="I"), 1))) is False)
        def exc(e, cond):
            F.V.ob("rejects with ValueError", e.name == "ValueError")
            bad = or_(binder("exists", s, S, lt(app("len", s, sort="I"), 1)), not_(eq(tot, T_)))
            F.V.ob("rejects only empty sequences and wrong totals", I.ctx.decide(bad) is True or implies_or(I.ctx, bad), show(cond)[:300])
        F.run(lambda: I.call(fn, (X, L)), post, exc); return F.done()
    return run_all("_utils.split_X_lengths", none, some)


def implies_or(ctx, c): return any(ctx.decide(x) is True for x in c.a) if c.op == "or" else False
