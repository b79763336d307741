"""Contracts of sampling: the hidden chain (base.py sample) and the emission draws of each family; the lemma about inverse-distribution draws."""
import z3
from .base import *
from .emissions import build, gauss, gmm, gmm_cov_shape, CTS, vec_, mat_
from .fit import instance, PUBLIC, resolved
from .small import assume_pd

NS, ST, P0, SEED, C0 = sym("NS", "I", "pos"), sym("ST", "I"), sym("P0", "I"), sym("SEED", "I"), sym("C0", "I")


def inverse_draw(p, n, u):
    """the first index whose cumulated probability exceeds u (p: index -> weight); see lemma.inverse_draw"""
    i, a, b = fresh("b"), fresh("b"), fresh("b")
    return binder("argf", i, n, num01(lt(u, div(ssum(a, add(i, 1), p(a)), ssum(b, n, p(b))))))


def u_(st, pos): return app("DRAW_rand", st, pos)


@task("lemma.inverse_draw", "C14")
def l_draw():
    """the first index j with P(j)/P(n-1) > u, P the cumulated non-negative weights of positive total and 0 <= u < 1: exists, has positive weight,
    and is drawn for exactly the u in an interval of length p_j / total"""
    V = Verifier("lemma.inverse_draw"); t0 = time.time()
    C = z3.Function("C", z3.IntSort(), z3.RealSort()); p = z3.Function("p", z3.IntSort(), z3.RealSort()); i, j, n = z3.Ints("i j n"); u = z3.Real("u")
    ax = [n >= 1, C(-1) == 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(C(i) == C(i - 1) + p(i), p(i) >= 0))), C(n - 1) > 0, 0 <= u, u < 1]
    first = lambda j: z3.And(0 <= j, j < n, C(j) / C(n - 1) > u, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < j), C(i) / C(n - 1) <= u)))
    def ob(name, hyp, goal):
        s = z3.Solver(); s.set("timeout", 20000); s.add(*hyp); s.add(z3.Not(goal)); V.ob(name, s.check() == z3.unsat, "", "z3", time.time() - t0)
    ob("some index qualifies", ax, C(n - 1) / C(n - 1) > u)
    T = [C(n - 1) > 0, 0 <= u, n >= 1, 0 <= j, j < n, C(j) == C(j - 1) + p(j), p(j) >= 0, C(-1) == 0]
    f = [C(j) / C(n - 1) > u, z3.Or(j == 0, C(j - 1) / C(n - 1) <= u)]
    ob("the drawn index has positive weight", T + f, p(j) > 0)
    ob("it is drawn for the numbers between its cumulated probabilities", T + f, z3.And(C(j - 1) <= u * C(n - 1), u * C(n - 1) < C(j - 1) + p(j)))
    # conversely, by monotonicity of the cumulated weights: below j nothing exceeds u
    k = z3.Int("k")
    ob("cumulated weights are monotone (step)", [C(k) == C(k - 1) + p(k), p(k) >= 0, C(i) <= C(k - 1)], C(i) <= C(k))
    ob("a number between its cumulated probabilities draws it", T + [C(j - 1) <= u * C(n - 1), u * C(n - 1) < C(j), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < j), C(i) <= C(j - 1)))], first(j))
    for o in V.out: o["function"] = "lemma.inverse_draw"
    return V.out


# ------------------------------------------------------------------ the chain
def t_sample(given_first):
    def one(tag, rs, cur, ns=None, mod="base", cls="BaseHMM"):
        def go():
            n = NS if ns is None else num(ns)
            F = Fn(f"base.sample[{tag}]", [le(1, NS), le(0, C0), lt(C0, N)]); I = F.I
            rows_positive("startprob", N); rows_positive("transmat", N)
            sampler = lambda: I.new(Obj("RandomState"), {"stream": ST, "pos": P0})
            own = sampler() if rs == "own generator" else SEED if rs == "own seed" else None
            m = build(F, mod, cls, random_state=own); h = I.heap[m]; given = sampler() if rs == "generator" else SEED if rs == "seed" else None
            log = I.new(ListV(), ()); checked = []; gens = []
            I.contracts[resolved(F, m, "_check")] = lambda I, s: checked.append(s is m)
            def gen(I, s, state, random_state=None):
                F.V.ob("the emission is drawn by the model with a generator", s is m and isinstance(random_state, Obj) and random_state.cls == "RandomState"); state = nt(npm.sc(I, state)); g = random_state; st, p = I.heap[g]["stream"], I.heap[g]["pos"]
                gens.append(g); I.call(I.getattr(log, "append"), ((state, st, p),))
                I.setk(g, "pos", add(p, app("EMITN", state, st, p, sort="I")))
                return I.arr((D,), lambda d: app("EMIT", state, st, p, d))
            I.contracts[resolved(F, m, "_generate_sample_from_state")] = gen
            before = dict(I.heap); h0 = dict(h)
            def post(v):
                F.V.ob("the model is checked before use", bool(checked) and all(checked))
                if not (isinstance(v, tuple) and len(v) == 2): return F.V.ob("returns the observations and the states", False)
                X, s = I.asarr(v[0]), I.asarr(v[1])
                F.V.ob("one row of observations and one state per step", X.ndim == 2 and s.ndim == 1 and I.deq(X.shape[0], n) and I.deq(X.shape[1], D) and I.deq(s.shape[0], n), f"{X.shape} {s.shape}"); F.V.ob("states are integers", s.dtype == "i")
                st0, p0 = (SEED, ZERO) if "seed" in rs else (ST, P0) if "generator" in rs else (sym("GLOBAL_STREAM", "I"), ZERO)
                parts = I.heap[log].parts if isinstance(I.heap[log], Seq) else [("one", x) for x in I.heap[log]]
                tot = add(ZERO, *[ONE if p[0] == "one" else p[1] for p in parts]); F.V.ob("one emission per step", I.ctx.decide(eq(tot, n)) is True, show(tot))
                sn = lambda t: nt(I.at(s, (t,)))
                prev = None; o = ZERO
                def at(pt, q):
                    """(state, stream, position) of the emission q of the part"""
                    return pt[1] if pt[0] == "one" else I.vsub(pt[3], {pt[2]: q})
                def check(t, e, pe):
                    F.same("the state of the step is the one that emitted", sn(t), e[0])
                    F.V.ob("the given generator is used", I.ctx.decide(eq(e[1], st0)) is True, show(e[1]))
                    d = fresh("d"); c0 = I.ctx; I.ctx = c0.extend(le(0, d), lt(d, D)); F.same("the observation of the step is the one emitted by its state", nt(I.at(X, (t, d))), app("EMIT", e[0], e[1], e[2], d)); I.ctx = c0
                    if pe is None:
                        if cur: F.same("the chain starts in the requested state", sn(t), C0); F.same("no draw for a given first state", e[2], p0)
                        else: F.same("the first state is drawn from the start distribution", sn(t), inverse_draw(lambda i: app("startprob", i), N, u_(st0, p0))); F.same("one fresh draw for the first state", e[2], add(p0, 1))
                    else:
                        fr = add(pe[2], app("EMITN", pe[0], pe[1], pe[2], sort="I"))
                        F.same("each state is drawn from the transition row of its predecessor", sn(t), inverse_draw(lambda i: app("transmat", sn(sub(t, 1)), i), N, u_(st0, fr))); F.same("each draw is fresh", e[2], add(fr, 1))
                for pt in parts:
                    if pt[0] == "one": e = at(pt, None); check(o, e, prev); prev = e; o = add(o, 1); continue
                    q = fresh("q"); c0 = I.ctx
                    if prev is not None: I.ctx = c0.extend(eq(q, ZERO), lt(q, pt[1])); check(o, at(pt, ZERO), prev)
                    q = fresh("q"); I.ctx = c0.extend(le(1, q), lt(q, pt[1])); check(add(o, q), at(pt, q), at(pt, sub(q, 1))); I.ctx = c0
                    prev = at(pt, sub(pt[1], 1)); o = add(o, pt[1])
                F.V.ob("the global generator is left alone", "rng.global" not in I.effects or rs == "none", f"{I.effects}")
                F.V.ob("the random state of the model is not replaced", I.heap[m].get("random_state") is h0["random_state"] or I.heap[m].get("random_state") == h0["random_state"])
                F.frame("parameter", *[a for a in h0.values() if isinstance(a, Arr)], before=before)
                F.V.ob("the model is unchanged", all(I.heap[m].get(q) is a for q, a in h0.items()) and set(I.heap[m]) == set(h0))
            kw = {}
            if given is not None: kw["random_state"] = given
            if cur: kw["currstate"] = C0
            F.run(lambda: I.call(I.getattr(m, "sample"), (n,), kw), post)
            return F.done()
        return go
    out = [one(f"{rs}{', first state given' if cur else ''}", rs, cur) for rs in ("seed", "generator", "own seed", "own generator", "none") for cur in (given_first,)]
    return run_all("base.sample", *out, one("two steps", "generator", True, 2) if given_first else one("one step", "seed", False, 1))


task("base.sample", "C14 C24 C25")(lambda: t_sample(False))
task("base.sample from a given state", "C14 C24 C25")(lambda: t_sample(True))


# ------------------------------------------------------------------ the emission of one state
def full_cov(ct, cov, lead, s):
    """full covariance (a matrix term) of state s from the stored form; lead: component index after the state, or ()"""
    i, j = fresh("l"), fresh("l")
    e = {"full": lambda: app(cov, s, *lead, i, j), "tied": lambda: app(cov, *((s,) if lead else ()), i, j), "diag": lambda: ite(eq(i, j), app(cov, s, *lead, i), ZERO), "spherical": lambda: ite(eq(i, j), app(cov, s, *(lead or (ZERO,))), ZERO)}[ct]()
    return lam((i, j), (D, D), e)


@task("emission draws", "C14 C16 C24 C25")
def t_emit():
    def one(tag, setup, spec, cnt, dtype="f", pre=None):
        def go():
            F = Fn(f"_emissions.{tag}._generate_sample_from_state", [le(0, C0), lt(C0, N)]); I = F.I; m = setup(F); g = I.new(Obj("RandomState"), {"stream": ST, "pos": P0}); before = dict(I.heap); h0 = dict(I.heap[m])
            def post(v):
                X = I.asarr(v); F.V.ob("one row of features", X.ndim == 1 and I.deq(X.shape[0], cnt), f"{X.shape}")
                if X.ndim == 1: F.same("drawn from the emission distribution of the state", X, F.spec((cnt,), spec, dtype))
                F.V.ob("only the given generator is used", "rng.global" not in I.effects and I.ctx.decide(lt(P0, I.heap[g]["pos"])) is True)
                F.frame("parameter", *[a for a in h0.values() if isinstance(a, Arr)], before=before)
                F.V.ob("the model is unchanged", all(I.heap[m].get(q) is a for q, a in h0.items()) and set(I.heap[m]) == set(h0))
            F.run(lambda: I.call(I.getattr(m, "_generate_sample_from_state"), (C0,), dict(random_state=g)), post)
            return F.done()
        return go
    def table(mod, cls):
        def f(F):
            m = instance(F, mod, cls); F.I.heap[m]["emissionprob_"] = F.arr("ep", N, D, kind="nonneg"); rows_positive("ep", D); return m
        return f
    def poi(F): return instance(F, "hmm", "PoissonHMM")
    def mul_(F):
        m = instance(F, "hmm", "MultinomialHMM"); F.I.heap[m]["n_trials"] = sym("NTR", "I", "pos"); return m
    def vg(ct):
        def f(F):
            m = instance(F, "vhmm", "VariationalGaussianHMM", ct); F.I.heap[m].update(means_posterior_=F.arr("mu", N, D), _covars_=F.arr("cov", *({"spherical": (N,), "diag": (N, D), "tied": (D, D), "full": (N, D, D)}[ct]), kind="pos" if ct in ("spherical", "diag") else "real")); return m
        return f
    def mvn(mean, cov): return lambda d: app("DRAW_mvn", ST, P0, mean(), cov(), d)
    def vcov(ct):
        if ct != "spherical": return full_cov(ct, "cov", (), C0)
        i, j = fresh("l"), fresh("l"); return lam((i, j), (D, D), ite(eq(i, j), app("cov", C0), ZERO))
    K = lambda: app("DRAW_choice", ST, P0, M, (lambda k: lam((k,), (M,), app("wt", C0, k)))(fresh("l")), sort="I")
    def choice_in(F): nf.Rules.bounds["DRAW_choice"] = M
    def gm(ct):
        def f(F): choice_in(F); return instance(F, "hmm", "GMMHMM", ct)
        return f
    def gmv(ct): return lambda d: app("DRAW_mvn", ST, add(P0, 1), vec_("mu", C0, K()), full_cov(ct, "cov", (K(),), C0), d)
    out = [one("CategoricalHMM", table("hmm", "CategoricalHMM"), lambda d: inverse_draw(lambda i: app("ep", C0, i), D, u_(ST, P0)), ONE, "i"), one("VariationalCategoricalHMM", table("vhmm", "VariationalCategoricalHMM"), lambda d: inverse_draw(lambda i: app("ep", C0, i), D, u_(ST, P0)), ONE, "i"),
           one("PoissonHMM", poi, lambda d: app("DRAW_poisson", ST, P0, vec_("lb", C0), d, sort="I"), D, "i"), one("MultinomialHMM", mul_, lambda d: app("DRAW_multinomial_rvs", ST, P0, sym("NTR", "I", "pos"), vec_("ep", C0), d, sort="I"), D, "i")]
    for ct in CTS:
        out.append(one(f"GaussianHMM[{ct}]", lambda F, ct=ct: instance(F, "hmm", "GaussianHMM", ct), mvn(lambda: vec_("mu", C0), lambda ct=ct: full_cov(ct, "cov", (), C0)), D))
        out.append(one(f"VariationalGaussianHMM[{ct}]", vg(ct), mvn(lambda: vec_("mu", C0), lambda ct=ct: vcov(ct)), D))
        out.append(one(f"GMMHMM[{ct}]", gm(ct), gmv(ct), D))
    return run_all("emission draws", *out)


# ------------------------------------------------------------------ covariances as attributes
@task("covariance attributes", "C16 C24")
def t_covars():
    def one(mod, cls, ct, sh):
        def get():
            F = Fn(f"{mod}.{cls}.covars_[read {ct}]"); I = F.I; m = instance(F, mod, cls, ct); c = F.arr("cov", *sh); I.heap[m]["_covars_"] = c; before = dict(I.heap)
            def post(v):
                i, j = fresh("l"), fresh("l")
                F.same("full form of the stored covariances", v, F.spec((N, D, D), lambda s, i, j: {"full": app("cov", s, i, j), "tied": app("cov", i, j), "diag": ite(eq(i, j), app("cov", s, i), ZERO), "spherical": ite(eq(i, j), app("cov", s, *((ZERO,) if len(sh) == 2 else ())), ZERO)}[ct]))
                F.frame("stored covariance", c, before=before); F.V.ob("the model keeps its stored covariances", I.heap[m]["_covars_"] is c)
            F.run(lambda: I.getattr(m, "covars_"), post); return F.done()
        def set_():
            F = Fn(f"{mod}.{cls}.covars_[write {ct}]"); I = F.I; m = instance(F, mod, cls, ct); c = F.arr("new", *sh); calls = []; before = dict(I.heap)
            I.contracts["hmmlearn._utils._validate_covars"] = lambda I, cv, t, n: calls.append((I.asarr(cv), t, n))
            def post(v):
                g = I.heap[m]["_covars_"]; F.same("the assigned values are stored", g, F.spec(sh, lambda *ix: app("new", *ix)))
                F.V.ob("a copy is stored", isinstance(g, Arr) and g.cell is not c.cell); F.frame("assigned array", c, before=before)
                F.V.ob("the covariances are validated for the model's type and number of states", len(calls) == 1 and calls[0][1] == ct and num_(calls[0][2]) is N)
                if calls: F.same("the assigned values are validated", calls[0][0], F.spec(sh, lambda *ix: app("new", *ix)))
            F.run(lambda: I.setattr(m, "covars_", c), post); return F.done()
        def reject():
            F = Fn(f"{mod}.{cls}.covars_[rejected {ct}]"); I = F.I; m = instance(F, mod, cls, ct); old = F.arr("cov", *sh); I.heap[m]["_covars_"] = old; c = F.arr("new", *sh)
            def bad(I, *a): raise PyExc("ValueError")
            I.contracts["hmmlearn._utils._validate_covars"] = bad
            F.run(lambda: I.setattr(m, "covars_", c), lambda v: F.V.ob("invalid covariances are refused", False), lambda e, cnd: (F.V.ob("invalid covariances are refused", e.name == "ValueError"), F.V.ob("refused covariances are not stored", F.I.heap[m]["_covars_"] is old)))
            F.V.out = [o for o in F.V.out if "returns normally" not in o["name"]]; return F.done()
        return [get, set_, reject]
    out = []
    for ct in CTS:
        for mod, cls in (("hmm", "GaussianHMM"), ("vhmm", "VariationalGaussianHMM")):
            sh = {"spherical": (N,), "diag": (N, D), "tied": (D, D), "full": (N, D, D)}[ct]
            out += one(mod, cls, ct, sh)
            if ct == "spherical" and mod == "hmm": out.append(one(mod, cls, ct, (N, D))[0])
    return run_all("covariance attributes", *out)


# ------------------------------------------------------------------ the stationary distribution
@task("base.get_stationary_distribution", "C26 C24")
def t_stationary():
    def go():
        F = Fn("base.get_stationary_distribution"); I = F.I; m = build(F, "base", "BaseHMM"); before = dict(I.heap); h0 = dict(I.heap[m])
        i, j, k, l = (fresh("b") for _ in range(4)); A = lam((i, j), (N, N), app("transmat", j, i)); top = binder("argf", k, N, app("EIGVAL", A, k))
        nf.Rules.pos.append(lambda t, ctx: t.op == "sum" and t.a[2].op == "app" and t.a[2].a[0] == "EIGVEC")
        def post(v):
            F.same("the eigenvector of the transposed transition matrix for its largest eigenvalue, scaled to sum to one", v, F.spec((N,), lambda s: div(app("EIGVEC", A, s, top), ssum(l, N, app("EIGVEC", A, l, top)))))
            F.frame("parameter", *[a for a in h0.values() if isinstance(a, Arr)], before=before)
            F.V.ob("the model is unchanged", all(I.heap[m].get(q) is a for q, a in h0.items()) and set(I.heap[m]) == set(h0))
        F.run(lambda: I.call(I.getattr(m, "get_stationary_distribution"), ()), post); return F.done()
    return run_all("base.get_stationary_distribution", go)
