"""Contracts of the parameter and data validation: _check of every class, _check_sum_1, _validate_covars, _check_and_set_n_features."""
from .base import *
from .emissions import build, gauss, gmm, gmm_cov_shape, CTS
from .fit import agree_imp, claim, instance, ML, VB, PUBLIC, iff, agree
from .small import cov_shape

ATOL, RTOL = num(Fraction(1, 10 ** 8)), num(Fraction(1, 10 ** 5))
N2, N3, N4, D2, D3, M2, M3 = (sym(x, "I", "pos") for x in ("N2", "N3", "N4", "D2", "D3", "M2", "M3"))
DIMS = [le(1, x) for x in (N2, N3, N4, D2, D3, M2, M3)]


def close(x, y): return le(app("abs", sub(x, y)), add(ATOL, mul(RTOL, app("abs", num(y)))))
def conj(binders, body):
    for v, n in reversed(binders): body = binder("forall", v, n, body)
    return body


def sums_to_one(name, *sh):
    """every row (last axis) of the array sums to one within the documented tolerance"""
    vs = [fresh("b") for _ in sh]
    return conj([(v, n) for v, n in zip(vs[:-1], sh[:-1])], close(ssum(vs[-1], sh[-1], app(name, *vs)), ONE))


def symmetric(name, lead, d):
    vs = [fresh("b") for _ in lead]; i, j = fresh("b"), fresh("b")
    return conj(list(zip(vs, lead)) + [(i, d), (j, d)], close(app(name, *vs, i, j), app(name, *vs, j, i)))


def eigen(name, lead, d, rel):
    """rel(smallest eigenvalues) for every matrix"""
    vs = [fresh("b") for _ in lead]; i, j, e = fresh("l"), fresh("l"), fresh("b")
    return conj(list(zip(vs, lead)) + [(e, d)], rel(app("EIGH", lam((i, j), (d, d), app(name, *vs, i, j)), e)))


def entries(name, sh, rel):
    vs = [fresh("b") for _ in sh]; return conj(list(zip(vs, sh)), rel(app(name, *vs)))


def gate(F, thunk, conds, unchanged=(), more=None, errors=("ValueError",), open_x=True):
    """thunk returns normally exactly when all conditions hold, and raises an error otherwise"""
    I = F.I; before = dict(I.heap)
    def post(v):
        for n, c in conds: F.V.truth(I, f"accepted only if {n}", c)
        if unchanged: F.frame("accepted parameter", *unchanged, before=before)
        if more: more(v)
    def exc(e, cond):
        F.V.ob("rejection is a ValueError", e.name in errors, e.name)
        if not conds: F.V.ob("valid input is accepted", False, f"{e.name} if {show(cond)[:300]}"); F.V.refuted(numeric.refute_goal, FALSE, I.ctx, extra=(cond,)); return
        claim(F, "rejected only if a condition fails", or_(*[not_(c) for _, c in conds]), I.ctx, show(cond)[:400])
    F.run(thunk, post, exc, open_x)
    if any(c is FALSE for _, c in conds): F.V.out = [o for o in F.V.out if "returns normally" not in o["name"]]
    return F.done()


def chain(F, m, shapes=None):
    """start and transition parameters of arbitrary shapes; the conditions of the base class"""
    h = F.I.heap[m]
    h["startprob_"] = F.arr("sp", N2); h["transmat_"] = F.arr("tm", N3, N4)
    return [("there is one start probability per state", eq(N2, N)), ("the start probabilities sum to one", sums_to_one("sp", N2)),
            ("the transition matrix has one row per state", eq(N3, N)), ("the transition matrix has one column per state", eq(N4, N)), ("every transition row sums to one", sums_to_one("tm", N3, N4))]


def start(name, mod, cls, **kw):
    F = Fn(name, DIMS); m = build(F, mod, cls, **kw); return F, m


def stored(F, m, *names): return [F.I.heap[m][n] for n in names]


def same_values(F, m, before, *names, width=None):
    def f(v):
        if width is not None: F.same("n_features is the width of the emission parameters", F.I.heap[m].get("n_features"), width)
        for n in names:
            a, b = F.I.heap[m].get(n), before[n]
            F.V.ob(f"{n} keeps its shape", isinstance(a, Arr) and a.ndim == b.ndim)
            if isinstance(a, Arr) and a.ndim == b.ndim: F.same(f"{n} keeps its values", a, F.spec(b.shape, lambda *ix: F.I.at(b, ix)))
    return f


@task("parameter validation", "C17 C12 C24")
def t_check():
    def base(mod, cls, extra, names, tag="", **kw):
        """extra(F, m) -> further conditions"""
        def go():
            F, m = start(f"{'base' if cls == 'BaseHMM' else mod}.{cls}._check{tag}", mod, cls, **kw); conds = chain(F, m) + extra(F, m); width = getattr(F, "width", None); F.I.ctx = Ctx(F.V.facts); b0 = dict(F.I.heap[m])
            return gate(F, lambda: F.I.call(F.I.getattr(m, "_check"), ()), conds, [b0[n] for n in ("startprob_", "transmat_") + names], same_values(F, m, b0, "startprob_", "transmat_", *names, width=width))
        return go
    def wrong_rank(attr, *sh):
        def go():
            F, m = start(f"base.BaseHMM._check[{attr} of rank {len(sh)}]", "base", "BaseHMM"); F.I.heap[m][attr] = F.arr("w", *sh)
            return gate(F, lambda: F.I.call(F.I.getattr(m, "_check"), ()), [("it has the right rank", FALSE)])
        return go
    def table(attr, nm, nf, kind="dist", trials=False):
        def f(F, m):
            h = F.I.heap[m]; h[attr] = F.arr(nm, N2 if False else sym("E1", "I", "pos"), sym("E2", "I", "pos")); F.V.facts = F.V.facts + [le(1, sym("E1", "I", "pos")), le(1, sym("E2", "I", "pos"))]
            if nf == "given": h["n_features"] = D
            elif nf is None: h["n_features"] = None
            else: h.pop("n_features", None)
            if trials: h["n_trials"] = 5
            E1, E2 = sym("E1", "I", "pos"), sym("E2", "I", "pos"); F.width = D if nf == "given" else E2
            c = [("the emission table has one row per state", eq(E1, N))]
            if nf == "given": c.append(("the emission table has one column per symbol", eq(E2, D)))
            if kind == "dist": c.append(("every emission row sums to one", sums_to_one(nm, E1, E2)))
            return c
        return f
    def gauss_(F, m):
        h = F.I.heap[m]; h["means_"] = F.arr("mu", N, D); h["_covars_"] = F.arr("cov", N, D); h["n_features"] = sym("D_old", "I", "pos"); F.width = D; return []
    def no_trials(F, m):
        table("emissionprob_", "ep", "given", None)(F, m); F.I.heap[m]["n_trials"] = None; return [("the number of trials is set", FALSE)]
    return run_all("parameter validation",
        base("base", "BaseHMM", lambda F, m: [], ()), wrong_rank("transmat_", N), wrong_rank("transmat_", N, N, N),
        base("hmm", "CategoricalHMM", table("emissionprob_", "ep", "given"), ("emissionprob_",), "[n_features set]"), base("hmm", "CategoricalHMM", table("emissionprob_", "ep", None), ("emissionprob_",), "[n_features unset]"),
        base("hmm", "MultinomialHMM", table("emissionprob_", "ep", "given", None, True), ("emissionprob_",), "[n_features set]"), base("hmm", "MultinomialHMM", table("emissionprob_", "ep", "unset", None, True), ("emissionprob_",), "[n_features unset]"), base("hmm", "MultinomialHMM", no_trials, ("emissionprob_",), "[n_trials unset]"),
        base("hmm", "PoissonHMM", table("lambdas_", "lb", "given", None), ("lambdas_",), "[n_features set]"), base("hmm", "PoissonHMM", table("lambdas_", "lb", "unset", None), ("lambdas_",), "[n_features unset]"),
        *[base("hmm", "GaussianHMM", gauss_, ("means_", "_covars_"), f"[{ct}]", covariance_type=ct) for ct in CTS],
        base("hmm", "GaussianHMM", lambda F, m: gauss_(F, m) + [("the covariance type is known", FALSE)], (), "[unknown covariance type]", covariance_type="bad"))


def t_check_gmm(ct_):
    def one(ct, what):
        def go():
            F, m = start(f"hmm.GMMHMM._check[{ct}{' ' + what if what else ''}]", "hmm", "GMMHMM", covariance_type=ct, n_mix=M); I = F.I; h = I.heap[m]; h["n_features"] = D
            if what == "n_features unset": h.pop("n_features", None)
            shp = gmm_cov_shape(ct) if ct != "bad" else (N, M)
            h["startprob_"] = F.arr("sp", N); h["transmat_"] = F.arr("tm", N, N)
            h["weights_"] = F.arr("wt", *((sym("W1", "I", "pos"), sym("W2", "I", "pos")) if what == "weights" else (N, M)))
            h["means_"] = F.arr("mu", *((sym("W1", "I", "pos"), sym("W2", "I", "pos"), sym("W3", "I", "pos")) if what == "means" else (N, M, D)))
            cs = tuple(sym(f"W{i}", "I", "pos") for i in range(len(shp))) if what == "covars" else shp
            h["covars_"] = F.arr("cv", *cs)
            F.V.facts = F.V.facts + [le(1, sym(f"W{i}", "I", "pos")) for i in range(4)]; I.ctx = Ctx(F.V.facts)
            good = lambda g, w: [(f"{n} has the right shape", eq(a, b)) for n, (a, b) in zip(["axis %d" % i for i in range(4)], zip(g, w))]
            W = [sym(f"W{i}", "I", "pos") for i in range(4)]
            conds = [("the start probabilities sum to one", sums_to_one("sp", N)), ("every transition row sums to one", sums_to_one("tm", N, N))]
            if what == "weights": conds += good(W[1:3], (N, M))
            if what == "means": conds += good(W[1:4], (N, M, D))
            if what == "covars": conds += good(cs, shp)
            ws = h["weights_"].shape; conds.append(("every state's mixture weights sum to one", sums_to_one("wt", *ws)))
            if ct == "bad": conds.append(("the covariance type is known", FALSE))
            if ct in ("spherical", "diag"): conds.append(("no variance is negative", entries("cv", cs, lambda x: le(0, x))))
            if ct in ("tied", "full"):
                lead = cs[:-2]
                conds += [("covariances are symmetric", symmetric("cv", lead, cs[-1])), ("no eigenvalue is negative", eigen("cv", lead, cs[-1], lambda x: le(0, x)))]
            b0 = dict(h)
            return gate(F, lambda: I.call(I.getattr(m, "_check"), ()), conds, [b0[n] for n in ("startprob_", "transmat_", "weights_", "means_", "covars_")], same_values(F, m, b0, "startprob_", "transmat_", "weights_", "means_", "covars_", width=D if what in ("", "n_features unset") else None))
        return go
    return run_all(f"mixture parameter validation [{ct_}]", *[one(ct_, w) for w in ("", "weights", "means", "covars") + (("n_features unset",) if ct_ in ("diag", "spherical") else ())], *([one("bad", "")] if ct_ == "diag" else []))


for _ct in CTS: task(f"mixture parameter validation [{_ct}]", "C17 C12 C24")(lambda ct=_ct: t_check_gmm(ct))


@task("_utils._validate_covars", "C17 C16")
def t_validate():
    def one(ct, sh, conds, tag=""):
        def go():
            F = Fn(f"_utils._validate_covars[{ct}{tag}]", DIMS); I = F.I; fn = F.func("_utils", "_validate_covars"); c = F.arr("cv", *sh); before = dict(I.heap)
            return gate(F, lambda: I.call(fn, (c, ct, N)), conds, [c])
        return go
    P = lambda x: lt(0, x)
    return run_all("_utils._validate_covars",
        one("spherical", (N2,), [("there is one variance per state", eq(N2, N)), ("variances are positive", entries("cv", (N2,), P))]),
        one("diag", (N, D), [("variances are positive", entries("cv", (N, D), P))]), one("diag", (N,), [("it has two axes", FALSE)], " rank 1"), one("diag", (N, D, D), [("it has two axes", FALSE)], " rank 3"),
        one("tied", (D2, D3), [("the matrix is square", eq(D2, D3)), ("it is symmetric", symmetric("cv", (), D2)), ("it is positive definite", eigen("cv", (), D2, P))]),
        one("full", (N, D2, D3), [("the matrices are square", eq(D2, D3)), ("they are symmetric", symmetric("cv", (N,), D2)), ("they are positive definite", eigen("cv", (N,), D2, P))]),
        one("full", (D, D), [("it has three axes", FALSE)], " rank 2"), one("bad", (N, D), [("the covariance type is known", FALSE)]))
