"""Run-time contracts: for every property, a generator of inputs and an oracle,
evaluated on the real code (API level).  Each function checks ONE case drawn from
`c.rng`; case numbers stratify families and configurations."""
import copy, itertools, logging, math, types, warnings, sys
import numpy as np
from core import *
from core import NEG

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS.setdefault(pid, []).append(f); return f
    return deco


class Case:
    def __init__(self, pid, seed, i, M, hints=()):
        self.rng = np.random.RandomState((seed * 7919 + i * 104729 + sum(map(ord, pid)) * 31) % (2 ** 32))
        self.i = i; self.M = M; self.pid = pid
        self.hints = [int(h) for h in hints if h == int(h) and 0 <= h < 1e5]      # integers: dimensions
        self.mags = [abs(float(h)) for h in hints if h]                            # magnitudes

    def fam(self, fams): return fams[(self.i // 1) % len(fams)]

    def impl(self): return ("log", "scaling")[(self.i // 2 + self.i) % 2] if False else ("log", "scaling")[int(self.rng.randint(2))]

    def dims(self, fam, big=0.08):
        r = self.rng
        nc = int(r.randint(1, 5)); nf = int(r.randint(1, 4)); nm = int(r.randint(1, 4)); T = int(r.randint(1, 7))
        if fam.startswith(("cat", "vcat", "mult")): nf = int(r.randint(2, 6))
        u = r.rand()
        if u < big: T = int(r.randint(20, 120))
        elif u < 1.6 * big: nc = int(r.randint(5, 12))
        elif u < 2 * big: nf = int(r.randint(4, 9))
        if self.hints and r.rand() < .3:
            h = int(self.hints[r.randint(len(self.hints))]) + int(r.randint(-1, 2))
            w = r.randint(4)
            if h >= 1:
                if w == 0 and h <= 3000: T = h
                elif w == 1 and h <= 40: nc = h
                elif w == 2 and h <= 40: nf = max(h, 2 if fam.startswith(("cat", "vcat", "mult")) else 1)
                elif w == 3 and h <= 12: nm = h
        return nc, nf, nm, T


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return f(*a, **k)


def raises(f, *a, exc=Exception, **k):
    try:
        quiet(f, *a, **k)
    except exc:
        return True
    return False


def feasible(p, X, L):
    for Xs in split(X, L):
        if best(lg(p["pi"]), lg(p["A"]), emis(p, Xs)) == NEG: return False
    return True


def setup(c, fams, n=None, need_feasible=True, pz=.25, impl=None, T=None, **kw):
    fam = c.fam(fams)
    for _ in range(50):
        nc, nf, nm, T_ = c.dims(fam)
        p = gen_params(c.rng, fam, nc, nf, nm, pz)
        X = whole(c, p, gen_X(c.rng, p, n or T or T_))
        L = rand_lengths(c.rng, len(X))
        if not need_feasible or feasible(p, X, L): break
        pz *= .8
    else: return None
    impl = impl or c.impl()
    return fam, p, X, L, impl, make_model(c.M, p, impl, **kw)


def whole(c, p, X):
    """real-valued data that happen to be whole numbers, away from the origin (a count, a grey level, a date)"""
    if X.dtype.kind != "f" or c.rng.rand() > .2: return X
    o = int(c.rng.choice([0, 12, 60, 200]))
    for k in ("mu", "m0", "mq"):
        if k in p: p[k] = p[k] + o
    return np.rint(X) + o


def as_input(c, X):
    r = c.rng.randint(8)
    if r >= 6:  # the narrowest types that hold the same values
        t = [t for t in ("i1", "u1", "i2", "u2", "f4") if (X.dtype.kind == "f" or t != "f4") and np.array_equal(quiet(X.astype, t).astype(float), X)]
        if t: return X.astype(t[int(c.rng.randint(len(t)))])
    if r == 0: return X.tolist()
    if r == 1: return np.asfortranarray(X)
    if r == 2: return np.repeat(X, 2, axis=0)[::2]
    if r == 3 and X.dtype.kind == "i": return X.astype(np.int32)
    return X


def oracle_score(p, X, L):
    tot = 0; G = []
    for Xs in split(X, L):
        l, g, xi = fb(lg(p["pi"]), lg(p["A"]), emis(p, Xs)); tot += l; G.append(g)
    return tot, np.concatenate(G)


# ------------------------------------------------------------------ C01 C02
@check("C01")
def c01(c):
    s = setup(c, ALL_FAMS, need_feasible=c.rng.rand() < .9)
    if s is None: return
    fam, p, X, L, impl, m = s
    if c.rng.rand() < .2 and fam.startswith(("cat", "pois", "mult")) and len(X) < 8:
        X = np.repeat(X, int(c.rng.randint(20, 60)), axis=0); L = rand_lengths(c.rng, len(X))
        if not feasible(p, X, L): return
    want, _ = oracle_score(p, X, L); Lx = lengths_as(c.rng, L); Xi = as_input(c, X)
    if want == NEG:
        if impl == "log": rclose("score", quiet(m.score, Xi, Lx), want, params=p["fam"])
        return
    info = dict(family=fam, implementation=impl, pi=p["pi"], A=p["A"], X=X, lengths=L)
    rclose("score", quiet(m.score, Xi, Lx), want, **info)
    rclose("score_samples log likelihood", quiet(m.score_samples, Xi, Lx)[0], want, **info)


@check("C02")
def c02(c):
    s = setup(c, ALL_FAMS)
    if s is None: return
    fam, p, X, L, impl, m = s
    want, G = oracle_score(p, X, L); Lx = lengths_as(c.rng, L); Xi = as_input(c, X)
    info = dict(family=fam, implementation=impl, pi=p["pi"], A=p["A"], X=X, lengths=L)
    P = quiet(m.predict_proba, Xi, Lx)
    rclose("predict_proba", P, G, rtol=1e-6, atol=1e-8, **info)
    need((P >= 0).all(), "negative posterior", **info); rclose("posterior row sums", P.sum(1), np.ones(len(X)), **info)
    rclose("score_samples posteriors", quiet(m.score_samples, Xi, Lx)[1], G, rtol=1e-6, atol=1e-8, **info)


def nearzero_frames(c):
    """Frames whose densities are tiny (but do not underflow to zero) in every state."""
    fam = "gauss-diag"; p = gen_params(c.rng, fam, int(c.rng.randint(2, 4)), 1, pz=.2)
    X = gen_X(c.rng, p, int(c.rng.randint(1, 7))); X[c.rng.randint(len(X))] *= c.rng.uniform(1, 8)
    return fam, p, X


@check("C01")
def c01b(c):
    if c.i % 5: return
    fam, p, X = nearzero_frames(c)
    want, G = oracle_score(p, X, None)
    lb = emis(p, X)
    for impl in ("log", "scaling"):
        m = make_model(c.M, p, impl)
        if impl == "scaling" and (lb.max(1).min() < -300 or want < -500): continue
        rclose("score of far-out data", quiet(m.score, X), want, implementation=impl, X=X, mu=p["mu"], cov=p["cov"])


def far_frames(c):
    """log densities of large magnitude (up to 1e7, or near a literal of the code): exact in the log domain"""
    r = c.rng; fam = "gauss-diag"; p = gen_params(r, fam, int(r.randint(1, 5)), 1, pz=.2)
    X = gen_X(r, p, int(r.randint(1, 9)))
    mag = 10 ** r.uniform(0, 7)
    if c.mags and r.rand() < .6:
        h = c.mags[r.randint(len(c.mags))]; mag = (h if h >= 1 else 1 / h) * r.uniform(.1, 4)
        mag = min(mag, 1e12)
    X = X * 0 + r.choice([-1, 1], size=X.shape) * np.sqrt(2 * mag) * r.uniform(.2, 1, size=X.shape)
    L = rand_lengths(r, len(X))
    return p, X, L


@check("C01")
@check("C02")
@check("C03")
@check("C04")
def far(c):
    if c.i % 4: return
    p, X, L = far_frames(c)
    if not feasible(p, X, L): return
    m = make_model(c.M, p, "log"); info = dict(pi=p["pi"], A=p["A"], X=X, lengths=L, mu=p["mu"], cov=p["cov"])
    if c.pid in ("C01", "C02", "C04"): want, G = oracle_score(p, X, L)
    if c.pid == "C01": rclose("score (large magnitudes)", quiet(m.score, X, L), want, **info)
    if c.pid == "C02": rclose("posteriors (large magnitudes)", quiet(m.predict_proba, X, L), G, rtol=1e-4, atol=1e-5, **info) if np.abs(X).max() < 1e3 else None
    if c.pid == "C04" and np.abs(X).max() < 1e3: rclose("map score (large magnitudes)", quiet(m.decode, X, L, algorithm="map")[0], G.max(1).sum(), rtol=1e-4, atol=1e-5, **info)
    if c.pid == "C03":
        lp, z = quiet(m.decode, X, L, algorithm="viterbi"); want = got = 0.
        for Xs, zs in zip(split(X, L), split(z, L)):
            lB = emis(p, Xs); want += best(lg(p["pi"]), lg(p["A"]), lB); got += path_score(lg(p["pi"]), lg(p["A"]), lB, zs)
        rclose("decode log probability (large magnitudes)", lp, want, **info)
        rclose("probability of the decoded path (large magnitudes)", got, want, **info)


OPS = {"C01": ["score"], "C02": ["predict_proba"], "C03": ["viterbi"], "C04": ["map"], "C14": ["sample"], "C15": ["score"], "C19": ["aic", "bic"], "C26": ["stationary"], "C06": ["fit"], "C07": ["fit"], "C08": ["fit"], "C20": ["fit"]}


@check("C01")
@check("C02")
@check("C03")
@check("C04")
@check("C06")
@check("C07")
@check("C08")
@check("C14")
@check("C15")
@check("C19")
@check("C20")
@check("C26")
def stale(c):
    """a model that has been used answers by its present parameters only, however they were replaced"""
    if c.i % 5: return
    r = c.rng; fam = c.fam({"C08": [f for f in ML_FAMS if f.startswith("gmm")], "C20": VB_FAMS, "C19": ML_FAMS, "C26": ML_FAMS, "C06": ML_FAMS, "C07": [f for f in ML_FAMS if not f.startswith("gmm")]}.get(c.pid, ALL_FAMS))
    kind = fam.partition("-")[0]; nc, nf, nm, T = c.dims(fam); nc = min(nc, 4); nf = min(nf, 4); impl = c.impl()
    p1 = gen_params(r, fam, nc, nf, nm, 0.); p2 = gen_params(r, fam, nc, nf, nm, 0.); X = gen_X(r, p1, int(r.randint(6, 14)) + nc); L = rand_lengths(r, len(X))
    if kind == "mult": X = np.array([np.bincount(r.randint(nf, size=p2["ntr"]), minlength=nf) for _ in X]); p1["ntr"] = p2["ntr"]
    seed = int(r.randint(1e6))
    ops = {"score": lambda m: m.score(X, L), "predict_proba": lambda m: m.predict_proba(X, L), "viterbi": lambda m: m.decode(X, L, algorithm="viterbi"), "map": lambda m: m.decode(X, L, algorithm="map"),
           "sample": lambda m: m.sample(12, random_state=seed), "aic": lambda m: m.aic(X, L), "bic": lambda m: m.bic(X, L), "stationary": lambda m: m.get_stationary_distribution(), "fit": lambda m: params_of(m.fit(X, L), fam)}
    if kind.startswith("v"): [ops.pop(k) for k in ("aic", "bic", "stationary")]
    mine = [o for o in OPS[c.pid] if o in ops]
    if not mine: return
    kw = dict(n_iter=int(r.randint(1, 4)), tol=-np.inf, params="".join(x for x in CODES[kind] if r.rand() < .7))
    if "c" in kw["params"] and "m" not in kw["params"]: kw["n_iter"] = 1
    m = make_model(c.M, p1, impl, **kw); used = [mine[0]] + [str(r.choice(sorted(ops))) for _ in range(2)]
    for o in r.permutation(used):
        try: quiet(ops[o], m)
        except ValueError: pass
    new = make_model(c.M, p2, impl, **kw); place = r.rand() < .4
    def adopt(dst):
        for k, v in vars(new).items():
            if k == "monitor_" or not k.endswith("_"): continue
            old = vars(dst).get(k)
            if place and isinstance(old, np.ndarray) and isinstance(v, np.ndarray) and old.dtype == v.dtype and old.shape == v.shape and old.flags.writeable: old[...] = v
            else: setattr(dst, k, v.copy() if isinstance(v, np.ndarray) else v)
    adopt(m)
    for o in mine:
        try: want = quiet(ops[o], make_model(c.M, p2, impl, **kw))
        except ValueError: return
        got = quiet(ops[o], m); info = dict(family=fam, implementation=impl, operations_before=used, replaced="in place" if place else "by assignment", p1=p1, p2=p2, X=X, lengths=L)
        if isinstance(want, dict):
            for k in want: rclose(f"{o} after the parameters were replaced: {k}", got[k], want[k], **info)
        elif isinstance(want, tuple):
            for k, (g, w) in enumerate(zip(got, want)): rclose(f"{o} after the parameters were replaced", g, w, **info)
        else: rclose(f"{o} after the parameters were replaced", got, want, **info)


@check("C01")
@check("C02")
@check("C03")
@check("C04")
@check("C05")
@check("C19")
def long_seq(c):
    """one long sequence: sums of many terms, products of many factors"""
    if c.i % 12 != 3: return
    r = c.rng; fam = str(r.choice(["cat", "gauss-diag", "pois"])); nc = int(r.randint(1, 4)); n = int(r.randint(900, 2200))
    p = gen_params(r, fam, nc, 2, 1, 0.); X = gen_X(r, p, n); impl = c.impl(); m = make_model(c.M, p, impl); L = None if r.rand() < .7 else [n - 3, 3]
    info = dict(family=fam, implementation=impl, pi=p["pi"], A=p["A"], n_samples=n)
    want, G = oracle_score(p, X, L)
    if c.pid in ("C01", "C05"): rclose("score of a long sequence", quiet(m.score, X, L), want, **info)
    if c.pid in ("C02", "C05"): rclose("posteriors of a long sequence", quiet(m.predict_proba, X, L), G, rtol=1e-6, atol=1e-8, **info)
    if c.pid == "C04":
        lp, z = quiet(m.decode, X, L, algorithm="map"); rclose("MAP score of a long sequence", lp, G.max(1).sum(), **info)
        rclose("probability of the MAP states of a long sequence", G[np.arange(n), z], G.max(1), rtol=1e-6, atol=1e-8, **info)
    if c.pid == "C03":
        lp, z = quiet(m.decode, X, L, algorithm="viterbi"); want = got = 0.
        for Xs, zs in zip(split(X, L), split(z, L)):
            lB = emis(p, Xs); want += best(lg(p["pi"]), lg(p["A"]), lB); got += path_score(lg(p["pi"]), lg(p["A"]), lB, zs)
        rclose("decode log probability of a long sequence", lp, want, **info); rclose("probability of the decoded path", got, want, **info)
    if c.pid == "C19":
        k = n_free(p)
        rclose("AIC of a long sequence", quiet(m.aic, X, L), -2 * want + 2 * k, **info); rclose("BIC of a long sequence", quiet(m.bic, X, L), -2 * want + k * np.log(n), **info)


# ---------------------------------------------------------------- C03 C04
@check("C03")
def c03(c):
    s = setup(c, ALL_FAMS)
    if s is None: return
    fam, p, X, L, impl, m = s
    if c.rng.rand() < .3:  # provoke ties
        p["pi"] = np.round(p["pi"] * 4) / 4; p["pi"] = stoch(c.rng, p["nc"]) if p["pi"].sum() == 0 else p["pi"] / p["pi"].sum()
        m.startprob_ = p["pi"].copy()
        if not feasible(p, X, L): return
    near = c.rng.rand() < .25 and p["nc"] > 1
    if near:  # near-ties: states that differ by little
        e = 10. ** -c.rng.uniform(3, 8); jig = lambda s: 1 + e * c.rng.uniform(-1, 1, size=s); nc = p["nc"]
        for k in ("pi", "A", "B", "lam") if not fam.startswith("v") else ("pi", "A"):
            if k not in p: continue
            v = np.broadcast_to(p[k][:1], p[k].shape) * jig(p[k].shape) if k in ("B", "lam") else np.where(p[k] > 0, 1., 0) * jig(p[k].shape)
            p[k] = v if k == "lam" else v / v.sum(axis=-1, keepdims=True)
        m.startprob_ = p["pi"].copy(); m.transmat_ = p["A"].copy()
        if "B" in p: m.emissionprob_ = p["B"].copy()
        if "lam" in p: m.lambdas_ = p["lam"].copy()
        if not feasible(p, X, L): return
    Lx = lengths_as(c.rng, L); Xi = as_input(c, X)
    kw = {} if c.rng.rand() < .5 else {"algorithm": "viterbi"}
    lp, z = quiet(m.decode, Xi, Lx, **kw)
    info = dict(family=fam, implementation=impl, pi=p["pi"], A=p["A"], X=X, lengths=L, path=z)
    need(z.shape == (len(X),), "decoded path has wrong shape", **info)
    need(np.issubdtype(np.asarray(z).dtype, np.integer) and (z >= 0).all() and (z < p["nc"]).all(), "decoded states out of range", **info)
    want = 0.
    for Xs, zs in zip(split(X, L), split(z, L)):
        lB = emis(p, Xs); b = best(lg(p["pi"]), lg(p["A"]), lB); want += b
        sc = path_score(lg(p["pi"]), lg(p["A"]), lB, zs)
        rclose("probability of the decoded path (maximum over all paths)", sc, b, **(dict(rtol=1e-10, atol=1e-10) if near else {}), **info)
    rclose("decode log probability", lp, want, **info)
    rclose("predict", quiet(m.predict, Xi, Lx), z, **info)


@check("C02")
@check("C05")
@check("C06")
def unreachable(c):
    """a state that cannot be reached explains the data far better than the others"""
    if c.i % 10 != 4: return
    r = c.rng; nc = int(r.randint(2, 5)); k = int(r.randint(1, nc)); T = int(r.randint(20, 400)); fam = str(r.choice(["cat", "gauss-diag"])); p = gen_params(r, fam, nc, 2 if fam == "cat" else 1, 1, 0.); p["style"] = ""
    p["pi"] = np.append(stoch(r, k), np.zeros(nc - k)); p["A"] = stoch(r, (nc, nc)); p["A"][:k, k:] = 0
    if r.rand() < .5: p["A"][k:, :k] = 0
    p["A"] = norm_rows(p["A"])
    if fam == "cat": q = 10 ** -r.uniform(0, 12, size=nc); q[k:] = .9; p["B"] = np.stack([q, 1 - q], 1); X = (r.rand(T, 1) < .02).astype(int)
    else: p["mu"], p["cov"] = np.where(np.arange(nc) < k, r.uniform(2, 12), 0.)[:, None], np.ones((nc, 1)); X = r.randn(T, 1)
    L = rand_lengths(r, T) if r.rand() < .3 else None; m = make_model(c.M, p, "scaling", params="st", n_iter=1); info = dict(family=fam, pi=p["pi"], A=p["A"], n_samples=T, p=p)
    LL, start, trans, G = estep(p, X, L)
    rclose("score", quiet(m.score, X, L), LL, **info); rclose("posteriors", quiet(m.predict_proba, X, L), G, rtol=1e-6, atol=1e-8, **info)
    if c.pid == "C02": return
    quiet(m.fit, X, L); got = params_of(m, fam)
    rclose("re-estimated start probabilities", got["pi"], start / start.sum(), rtol=1e-6, atol=1e-8, **info)
    rclose("re-estimated transition probabilities", got["A"][:k], norm_rows(trans)[:k], rtol=1e-6, atol=1e-8, **info) if trans[:k].sum(1).min() > 1e-6 else None


@check("C03")
@check("C04")
def near_ties(c):
    """scores that differ in the tenth digit only: the larger one still wins"""
    if c.i % 4 != 1: return
    r = c.rng; fam = str(r.choice(["cat", "gauss-diag", "pois"])); nc = int(r.randint(2, 5)); T = int(r.randint(1, 5)); p = gen_params(r, fam, nc, 2, 1, 0.)
    d = lambda *s: 1 + r.choice([-1, 0, 1], size=s) * 10 ** r.uniform(-9.5, -8)
    p["pi"] = np.ones(nc) / nc * d(nc); p["A"] = np.ones((nc, nc)) / nc * d(nc, nc)
    for k in ("B", "lam", "mu", "cov"):
        if k in p: p[k] = np.repeat(p[k][:1], nc, 0)
    p["pi"], p["A"] = p["pi"] / p["pi"].sum(), norm_rows(p["A"])
    X = gen_X(r, p, T); L = rand_lengths(r, T); m = make_model(c.M, p, c.impl()); info = dict(family=fam, pi=p["pi"] - 1 / nc, A=p["A"] - 1 / nc, X=X, lengths=L)
    if c.pid == "C04":
        _, G = oracle_score(p, X, L); z = quiet(m.decode, X, L, algorithm="map")[1]
        need((G[np.arange(T), z] >= G.max(1) - 2e-11).all(), "a state of smaller posterior was chosen", path=z, posteriors=G - 1 / nc, **info)
    else:
        z = quiet(m.decode, X, L, algorithm="viterbi")[1]
        for Xs, zs in zip(split(X, L), split(z, L)):
            lB = emis(p, Xs); w = best(lg(p["pi"]), lg(p["A"]), lB)
            need(path_score(lg(p["pi"]), lg(p["A"]), lB, zs) >= w - 1e-12 * (10 + abs(w)), "a path of smaller probability was chosen", path=z, **info)


@check("C01")
@check("C02")
@check("C03")
@check("C04")
@check("C14")
def many_states(c):
    """more states than a small integer type can hold"""
    if c.i % 15 != 7: return
    r = c.rng; nc = int(r.choice([129, 140, 257, 300])); fam = "pois"; p = gen_params(r, fam, nc, 1, 1, 0.); n = int(r.randint(2, 12))
    p["lam"] = np.arange(1, nc + 1)[:, None] * 40.; perm = r.permutation(nc)
    p["A"] = np.eye(nc)[perm] * .9 + .1 / nc; p["pi"] = np.full(nc, .5 / nc); p["pi"][-1] += .5; p["A"], p["pi"] = norm_rows(p["A"]), p["pi"] / p["pi"].sum()
    m = make_model(c.M, p, c.impl()); seed = int(r.randint(1e6)); info = dict(n_components=nc, n=n)
    if c.pid == "C14":
        X, Z = quiet(m.sample, n, random_state=seed, currstate=nc - 1 if r.rand() < .5 else None); Z = np.asarray(Z)
        need(Z.shape == (n,) and (Z >= 0).all() and (Z < nc).all(), "states out of range", Z=Z, **info)
        need((np.abs(X[:, 0] - p["lam"][Z, 0]) <= 8 * np.sqrt(p["lam"][Z, 0]) + 8).all(), "an observation that is not of its state's law", X=X, Z=Z, **info)
        m.transmat_ = np.eye(nc)[perm]; _, Z = quiet(m.sample, n, random_state=seed, currstate=nc - 1); need(all(perm[Z[t]] == Z[t + 1] for t in range(n - 1)) and Z[0] == nc - 1, "transition of probability zero produced", Z=Z, **info)
        return
    X = r.poisson(p["lam"][r.choice([nc - 1, nc - 2, 128, 3], size=n)]); L = rand_lengths(r, n)
    if c.pid == "C03":
        z = quiet(m.decode, X, L, algorithm="viterbi")[1]
        for Xs, zs in zip(split(X, L), split(z, L)):
            need(((np.asarray(zs) >= 0) & (np.asarray(zs) < nc)).all(), "states out of range", Z=z, **info)
            lB = emis(p, Xs); rclose("probability of the decoded path (many states)", path_score(lg(p["pi"]), lg(p["A"]), lB, zs), best(lg(p["pi"]), lg(p["A"]), lB), **info)
        return
    try: got = quiet({"C01": m.score, "C02": m.predict_proba, "C04": lambda *a: m.decode(*a, algorithm="map")}[c.pid], X, L)
    except ValueError as e:
        if "underflow" in str(e) and m.implementation == "scaling": return
        raise
    want, G = oracle_score(p, X, L)
    if c.pid == "C01": rclose("score (many states)", got, want, **info)
    if c.pid == "C02": rclose("posteriors (many states)", got, G, rtol=1e-6, atol=1e-8, **info)
    if c.pid == "C04":
        z = np.asarray(got[1]); need((z >= 0).all() and (z < nc).all(), "states out of range", Z=z, **info)
        rclose("posterior of the chosen states (many states)", G[np.arange(n), z], G.max(1), rtol=1e-6, atol=1e-8, **info)


@check("C14")
def big_draws(c):
    """draws that a small integer or float type cannot hold"""
    if c.i % 5 != 2: return
    r = c.rng; nc = int(r.randint(1, 4)); fam = str(r.choice(["cat", "pois", "gauss-diag"])); n = int(r.randint(1, 30))
    if fam == "cat":
        nf = int(r.choice([300, 40000])); p = gen_params(r, fam, nc, 3, 1, 0.); p["nf"] = nf
        p["B"] = np.zeros((nc, nf)); p["B"][np.arange(nc), nf - 1 - np.arange(nc)] = 1.
    else:
        p = gen_params(r, fam, nc, 1, 1, 0.); mag = 10 ** r.uniform(3, 15, size=(nc, 1))
        if fam == "pois": p["lam"] = mag
        else: p["mu"], p["cov"] = mag, np.ones((nc, 1))
    m = make_model(c.M, p, c.impl()); X, Z = quiet(m.sample, n, random_state=int(r.randint(1e6))); info = dict(family=fam, X=X, Z=Z)
    if fam == "cat": need((np.asarray(X)[:, 0] == p["nf"] - 1 - np.asarray(Z)).all(), "symbol of probability zero produced", **info)
    elif fam == "pois": need((np.abs(X - p["lam"][Z]) <= 8 * np.sqrt(p["lam"][Z])).all(), "counts that are not of their state's law", lam=p["lam"], **info)
    else: need((np.abs(X - p["mu"][Z]) <= 8).all(), "observations that are not of their state's law", mu=p["mu"], **info)


@check("C04")
def c04(c):
    on_model = c.rng.rand() < .5
    s = setup(c, ALL_FAMS, algorithm="map" if on_model else "viterbi")
    if s is None: return
    fam, p, X, L, impl, m = s
    _, G = oracle_score(p, X, L); Lx = lengths_as(c.rng, L); Xi = as_input(c, X)
    lp, z = quiet(m.decode, Xi, Lx) if on_model else quiet(m.decode, Xi, Lx, algorithm="map")
    info = dict(family=fam, implementation=impl, pi=p["pi"], A=p["A"], X=X, lengths=L, path=z)
    need(np.shape(z) == (len(X),), "wrong shape", **info)
    rclose("posterior of the chosen states (maximal posterior)", G[np.arange(len(X)), z], G.max(1), rtol=1e-6, atol=1e-8, **info)
    rclose("map score", lp, G.max(1).sum(), rtol=1e-6, atol=1e-8, **info)
    if on_model:
        z2 = quiet(m.predict, Xi, Lx)
        rclose("predict with a map model", G[np.arange(len(X)), z2], G.max(1), rtol=1e-6, atol=1e-8, **info)
        lp3, _ = quiet(m.decode, Xi, Lx, algorithm="viterbi")
        want = sum(best(lg(p["pi"]), lg(p["A"]), emis(p, Xs)) for Xs in split(X, L))
        rclose("decoder named in the call overrides the model's", lp3, want, **info)
    else:
        want = sum(best(lg(p["pi"]), lg(p["A"]), emis(p, Xs)) for Xs in split(X, L))
        rclose("the model's decoder is used by default", quiet(m.decode, Xi, Lx)[0], want, **info)
    bad = ["posterior", "Viterbi", "MAP", "foo", "viterbi "][int(c.rng.randint(5))]
    need(raises(m.decode, Xi, Lx, algorithm=bad), "unknown decoder accepted", algorithm=bad)
    m.algorithm = bad
    need(raises(m.decode, Xi, Lx), "unknown decoder on the model accepted", algorithm=bad)


# -------------------------------------------------------------------- C05
def data_for_fit(c, fams, n_lo=8, n_hi=30, pz=.2, **kw):
    fam = c.fam(fams)
    for _ in range(50):
        nc, nf, nm, T = c.dims(fam); nc = min(nc, 12)
        p = gen_params(c.rng, fam, nc, nf, nm, pz)
        X = whole(c, p, gen_X(c.rng, p, max(T, int(c.rng.randint(n_lo, n_hi)), nc + 1)))
        L = rand_lengths(c.rng, len(X))
        if feasible(p, X, L): return fam, p, X, L
        pz *= .8
    return None


@check("C05")
def c05(c):
    d = data_for_fit(c, ALL_FAMS)
    if d is None: return
    fam, p, X, L = d; Lx = lengths_as(c.rng, L)
    n_it = int(c.rng.randint(1, 4)); kw = dict(n_iter=n_it, tol=-np.inf)
    a = make_model(c.M, p, "log", **kw); b = make_model(c.M, p, "scaling", **kw)
    info = dict(family=fam, pi=p["pi"], A=p["A"], X=X, lengths=L)
    rclose("scaling score vs log score", quiet(b.score, X, Lx), quiet(a.score, X, Lx), **info)
    rclose("scaling posteriors vs log posteriors", quiet(b.predict_proba, X, Lx), quiet(a.predict_proba, X, Lx), rtol=1e-6, atol=1e-8, **info)
    bad = ["Log", "scale", "", "logscaling"][int(c.rng.randint(4))]
    m = make_model(c.M, p, bad, **kw)
    for op in (m.score, m.predict_proba, m.fit): need(raises(op, X, Lx), "unknown implementation accepted", implementation=bad, op=op.__name__)
    ea = eb = None
    try: quiet(a.fit, X, Lx)
    except ValueError as e: ea = e
    try: quiet(b.fit, X, Lx)
    except ValueError as e: eb = e
    if ea is not None or eb is not None:
        return
    pa, pb = params_of(a, fam), params_of(b, fam)
    ha, hb = np.array(a.monitor_.history), np.array(b.monitor_.history)
    if not all(np.isfinite(v).all() for v in pa.values()) or not np.isfinite(ha).all(): return
    if "mu" in pa and fam[0] == "g" and min(np.linalg.eigvalsh(v).min() for v in (np.atleast_2d(pa.get("covfull", np.eye(1))).reshape((-1,) + pa.get("covfull", np.eye(1)).shape[-2:]))) < 1e-3: return
    if fam.startswith("gmm") and pa["cov"].min() < 1e-2 and p["ct"] in ("diag", "spherical"): return
    if fam.startswith("gmm") and p["ct"] in ("full", "tied") and np.linalg.eigvalsh(pa["cov"]).min() < 1e-2: return
    rclose("history", hb, ha, rtol=1e-5, atol=1e-6, **info)
    for k in pa: rclose("fitted " + k, pb[k], pa[k], rtol=1e-4, atol=1e-5, n_iter=n_it, **info)


# -------------------------------------------------------------- C06 C07 C08
def prior_sets(c, p, which):
    r = c.rng; nc, nf, nm = p["nc"], p["nf"], p["nm"]; pri = {}
    kind = p["fam"].partition("-")[0]
    if r.rand() < .4: return pri
    whole = r.rand() < .15        # integer-valued priors of an integer type

    def sc_or_arr(shape, lo, hi):
        if whole: return int(r.randint(np.ceil(lo), hi + 1)) if r.rand() < .5 else r.randint(int(np.ceil(lo)), int(hi) + 1, size=shape)
        return float(r.uniform(lo, hi)) if r.rand() < .5 else r.uniform(lo, hi, size=shape)
    if "chain" in which:
        if r.rand() < .6: pri["startprob_prior"] = sc_or_arr((nc,), .3, 3)
        if r.rand() < .6: pri["transmat_prior"] = sc_or_arr((nc, nc), .3, 3)
    if kind == "cat" and r.rand() < .7: pri["emissionprob_prior"] = sc_or_arr((nc, nf), .5, 3)
    if kind == "pois" and r.rand() < .8:
        pri["lambdas_prior"] = sc_or_arr((nc, nf), .1, 3); pri["lambdas_weight"] = sc_or_arr((nc, nf), .1, 3)
    if kind == "gauss":
        if r.rand() < .6: pri["means_prior"] = sc_or_arr((nc, nf), -1, 1)
        if r.rand() < .6: pri["means_weight"] = float(r.uniform(0, 3))
        if r.rand() < .6: pri["covars_prior"] = float(r.uniform(0, 1)) if p["ct"] in ("spherical", "diag") or r.rand() < .5 else (spd(r, nf))
        if r.rand() < .6: pri["covars_weight"] = float(r.uniform(0, nf + 3))
    if kind == "gmm":
        ct = p["ct"]
        if r.rand() < .6: pri["weights_prior"] = sc_or_arr((nc, nm), 1, 3)
        if r.rand() < .6: pri["means_prior"] = sc_or_arr((nc, nm, nf), -1, 1)
        if r.rand() < .6: pri["means_weight"] = sc_or_arr((nc, nm), 0, 3)
        if r.rand() < .6:
            if ct in ("diag", "spherical"):
                sh = (nc, nm, nf) if ct == "diag" else (nc, nm)
                pri["covars_prior"] = sc_or_arr(sh, .1, 2); pri["covars_weight"] = sc_or_arr(sh, .1, 2)
            else:
                sh = (nc, nm, nf, nf) if ct == "full" else (nc, nf, nf)
                pri["covars_prior"] = 0.5 if r.rand() < .3 else np.broadcast_to(spd(r, nf), sh).copy()
                pri["covars_weight"] = sc_or_arr((nc, nm) if ct == "full" else (nc,), .1, 2)
    return pri


CODES = {"cat": "ste", "mult": "ste", "pois": "stl", "gauss": "stmc", "gmm": "stmcw", "vcat": "ste", "vgauss": "stmc"}


def one_step(c, fams, which, focus, always=""):
    d = data_for_fit(c, fams, pz=.25)
    if d is None: return
    fam, p, X, L = d; kind = fam.partition("-")[0]; impl = c.impl()
    pri = prior_sets(c, p, which)
    codes = CODES[kind]
    params = codes if c.rng.rand() < .5 else "".join(x for x in codes if c.rng.rand() < .6 or x in always)
    params = "".join(c.rng.permutation(list(params))) if params else ""
    m = make_model(c.M, p, impl, n_iter=1, params=params, **{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in pri.items()})
    LL, start, trans, G = estep(p, X, L)
    if (G.sum(0) < 1e-6).any(): return
    if "pi" in focus and (np.maximum(np.where(p["pi"] == 0, 0, pri.get("startprob_prior", 1.) - 1 + start), 0).sum() < 1e-9): return
    want = mstep(p, X, start, trans, G, pri, params)
    if kind == "gmm":
        R = want["w"]
        if not all(np.isfinite(np.asarray(want[k])).all() for k in ("w", "mu", "cov")): return
        if np.asarray(want["w"]).min() < 1e-3: return
    W = spec_params(want)
    info = dict(family=fam, implementation=impl, params=params, priors=str(pri), pi=p["pi"], A=p["A"], X=X, lengths=L)
    quiet(m.fit, as_input(c, X), lengths_as(c.rng, L))
    got = params_of(m, fam)
    for k in W:
        if k in focus or focus == "all": rclose("re-estimated " + k, got[k], W[k], rtol=1e-5, atol=1e-7, **info)
    if "pi" in focus: rclose("log likelihood monitored", m.monitor_.history[0], LL, **info)
    return True


@check("C06")
@check("C07")
@check("C08")
def tiny_occupancy(c):
    """states that account for next to nothing of the data are re-estimated from their share like any other"""
    if c.i % 4 != 2: return
    r = c.rng; fam = "gmm-diag" if c.pid == "C08" else str(r.choice(["gauss-diag", "pois", "gauss-full", "cat"])); kind = fam.partition("-")[0]; nc = int(r.randint(2, 4)); T = int(r.randint(4, 8) if c.pid == "C08" else r.randint(2, 6))
    p = gen_params(r, fam, nc, 2 if kind == "cat" else 1, 2, 0.); p["style"] = ""; p["pi"], p["A"] = stoch(r, nc), stoch(r, (nc, nc)); gap = r.uniform(3, 12)
    if kind == "cat": p["B"] = np.array([[1 - e, e] for e in 10 ** -r.uniform(3, 40, size=nc)]); X = np.zeros((T, 1), int); X[int(r.randint(T))] = 1
    elif kind == "pois": p["lam"] = np.arange(1, nc + 1)[:, None] ** 2 * gap; X = r.poisson(p["lam"][0], size=(T, 1))
    else:
        p["mu"] = np.arange(nc).reshape((nc,) + (1,) * (np.ndim(p["mu"]) - 1)) * gap + r.randn(*np.shape(p["mu"])) * (gap if kind == "gmm" else .1); p["cov"] = np.ones_like(p["cov"], dtype=float); X = r.randn(T, 1) + (r.choice([0, 45.]) if kind == "gmm" and r.rand() < .4 else 0)
        if kind == "gmm": p["w"] = stoch(r, (nc, 2))
    L = rand_lengths(r, T); impl = "log" if kind == "gmm" else c.impl(); lB = emis(p, X)
    if impl == "scaling" and lB.min() < -300: impl = "log"
    LL, start, trans, G = estep(p, X, L)
    if min(G.sum(0).min(), start.min() if len(start) else 1.) < 1e-200: return
    if trans.sum() > 0 and trans.min() < 1e-200: return
    params = {"C06": "st", "C08": "mw"}.get(c.pid, {"gauss": "m", "pois": "l", "cat": "e"}.get(kind)); info = dict(family=fam, implementation=impl, p=p, X=X, lengths=L)
    m = make_model(c.M, p, impl, n_iter=1, params=params); quiet(m.fit, X, L); got = params_of(m, fam)
    if c.pid == "C06":
        rclose("start probabilities (tiny shares)", got["pi"], start / start.sum(), rtol=1e-6, atol=0, **info)
        if trans.sum() > 0: rclose("transition probabilities (tiny shares)", got["A"], norm_rows(trans), rtol=1e-6, atol=0, **info)
    else:
        W = spec_params(mstep(p, X, start, trans, G, {}, params))
        for k in {"gauss": ["mu"], "pois": ["lam"], "cat": ["B"], "gmm": ["w", "mu"]}[kind]:
            if kind == "gmm" and np.asarray(W["w"]).min() < 1e-200: return
            rclose(f"re-estimated {k} (tiny shares)", got[k], W[k], rtol=1e-6, atol=1e-12 if k == "mu" else 0, **info)


@check("C06")
def c06(c): one_step(c, ML_FAMS, ("chain",), ("pi", "A"), always="st")


@check("C07")
def c07(c): one_step(c, [f for f in ML_FAMS if not f.startswith("gmm")], (), ("B", "lam", "mu", "covfull"), always="emlc")


@check("C08")
def c08(c): one_step(c, [f for f in ML_FAMS if f.startswith("gmm")], (), ("w", "mu", "cov"), always="mcw")


# -------------------------------------------------------------------- C09
FLAT = {"gauss": dict(covars_prior=0.)}


@check("C09")
def c09(c):
    fam = c.fam(ML_FAMS); kind = fam.partition("-")[0]
    nc, nf, nm, T = c.dims(fam, big=.02); nc = min(nc, 4); nf = min(nf, 5); nm = min(nm, 3)
    p = gen_params(c.rng, fam, nc, nf, nm, .15); n = int(c.rng.randint(40, 90)); X = gen_X(c.rng, p, n)
    if c.rng.rand() < .5 and X.dtype.kind == "f": X = X + 3 * c.rng.randn(nc, nf)[c.rng.randint(nc, size=n)]
    L = rand_lengths(c.rng, n) if c.rng.rand() < .5 else None
    if not feasible(p, X, L): return
    codes = CODES[kind]; params = codes if c.rng.rand() < .5 else "".join(x for x in codes if c.rng.rand() < .6)
    impl = c.impl(); it = int(c.rng.randint(2, 8))
    m = make_model(c.M, p, impl, n_iter=it, tol=-np.inf, params=params, **FLAT.get(kind, {}))
    try: quiet(m.fit, X, L)
    except ValueError: return  # degenerate update
    h = np.array(m.monitor_.history)
    if not np.isfinite(h).all(): return
    q = params_of(m, fam)
    if not all(np.isfinite(v).all() for v in q.values()): return
    if "covfull" in q and np.linalg.eigvalsh(q["covfull"]).min() < 1e-3: return
    if kind == "gmm" and (q["cov"].min() if p["ct"] in ("diag", "spherical") else np.linalg.eigvalsh(q["cov"]).min()) < 1e-3: return
    info = dict(family=fam, implementation=impl, params=params, pi=p["pi"], A=p["A"], X=X, lengths=L, history=h)
    tol = 1e-7 * max(1, np.abs(h).max())
    need(len(h) == it, "one history entry per iteration", **info)
    need((np.diff(h) >= -tol).all(), "log likelihood decreased during fit", **info)
    rclose("first history entry (log likelihood of the starting model)", h[0], oracle_score(p, X, L)[0], **info)
    try: fin = quiet(m.score, X, L)
    except ValueError: return
    need(fin >= h[-1] - tol, "log likelihood decreased in the last iteration", final=fin, **info)


# -------------------------------------------------------------------- C10
def clean_fit_data(c, fam, n, k):
    kind = fam.partition("-")[0]; r = c.rng
    nf = int(r.randint(1, 4)) if kind not in ("cat", "mult") else int(r.randint(2, 5))
    z = np.repeat(np.arange(k), 4); z = np.resize(np.concatenate([z, r.randint(k, size=n)]), n)
    if kind == "cat":
        X = np.where(r.rand(n) < .6, z % nf, r.randint(nf, size=n))[:, None]; X[:nf, 0] = np.arange(nf)
    elif kind == "mult":
        X = np.stack([r.multinomial(6, stoch(r, nf)) for _ in range(n)]); X[:nf] += np.eye(nf, dtype=int); X[:nf, 0] += 0
        X = np.stack([r.multinomial(6, np.roll(np.arange(1, nf + 1) / (nf * (nf + 1) / 2), zz)) for zz in z])
    elif kind == "pois": X = r.poisson(1 + 4. * z[:, None], size=(n, nf)) + (np.arange(n)[:, None] % 2)
    else: X = r.randn(n, nf) + 4. * z[:, None]
    return X, nf


@check("C10")
def c10(c):
    fam = c.fam(ML_FAMS); kind, _, ct = fam.partition("-"); r = c.rng
    nc = int(r.randint(1, 4)); n = int(r.randint(40, 100))
    X, nf = clean_fit_data(c, fam, n, nc); L = None if r.rand() < .6 else [n // 2, n - n // 2]
    cls = {"cat": "CategoricalHMM", "mult": "MultinomialHMM", "pois": "PoissonHMM", "gauss": "GaussianHMM", "gmm": "GMMHMM"}[kind]
    kw = dict(n_components=nc, random_state=int(r.randint(1000)), n_iter=int(r.randint(1, 6)), implementation=c.impl(), tol=1e-3)
    if ct: kw["covariance_type"] = ct
    if kind == "gmm": kw["n_mix"] = int(r.randint(1, 3))
    if r.rand() < .3: kw["transmat_prior"] = float(r.uniform(1, 3)); kw["startprob_prior"] = float(r.uniform(1, 3))
    if kind == "gmm" and r.rand() < .3: kw["weights_prior"] = float(r.uniform(1, 3))
    m = getattr(c.M.hmm, cls)(**kw)
    try: quiet(m.fit, X, L)
    except ValueError as e:
        if kw["implementation"] == "scaling" and "underflow" in str(e): return
        q = [np.asarray(v) for k, v in vars(m).items() if k.endswith("_") and isinstance(v, np.ndarray)]
        if any(np.isnan(v).any() for v in q) or kind == "gmm": return
        raise
    q = params_of(m, fam)
    info = dict(family=fam, kw=str(kw), X=X[:5], **{k: v for k, v in q.items()})
    if not np.isfinite(q["A"]).all() or (q["A"].sum(1) == 0).any(): return  # a state without outgoing transitions
    if any(not np.isfinite(v).all() for v in q.values()):
        try: P = quiet(m.predict_proba, X, L)
        except ValueError: return
        return
    for k in ("pi", "A", "B", "w"):
        if k in q:
            need((q[k] >= 0).all(), "negative probability in " + k, **info)
            rclose("sums of " + k, q[k].sum(-1), np.ones(q[k].shape[:-1]), rtol=1e-8, **info)
    if kind == "gauss":
        need(q["covfull"].shape == (nc, nf, nf), "covariance shape", **info)
        rclose("symmetry", q["covfull"], np.swapaxes(q["covfull"], 1, 2), **info)
        ev = np.linalg.eigvalsh(q["covfull"])   # a state owning about nf points or fewer is degenerate: singular up to rounding
        need((ev > -1e-8 * ev.max(axis=-1, keepdims=True)).all() and (ev[..., -1] > 0).all() and (np.diagonal(q["covfull"], axis1=1, axis2=2) > 0).all(), "covariances are not positive definite", **info)
    if kind == "gmm":
        cv = q["cov"]
        if ct in ("full", "tied"): need((np.linalg.eigvalsh(cv) > -1e-12).all(), "mixture covariances not positive", **info)
        else: need((cv >= 0).all(), "mixture variances negative", **info)
    if kind == "pois": need((q["lam"] >= 0).all(), "negative rates", **info)
    try:
        sc = quiet(m.score, X, L)
    except ValueError as e:
        if "underflow" in str(e): return
        if kind == "gmm": return
        raise
    need(np.isfinite(sc) or kind == "gmm", "fitted model gives no finite score", score=sc, **info)
    quiet(m.decode, X, L); quiet(m.sample, 3)


@check("C10")
def c10b(c):
    """normalize and log_normalize turn any non-negative weights of positive total, however small, into probabilities"""
    if c.i % 3: return
    r = c.rng; a = stoch(r, (int(r.randint(1, 5)), int(r.randint(1, 5))), .3) * 10 ** -r.choice([r.uniform(0, 304), 304., r.uniform(304, 318)]); a0 = a.copy()
    if (a0.sum(1) == 0).any(): return
    s = a0 / a0.sum(1, keepdims=True); quiet(c.M.utils.normalize, a, axis=1); rclose("normalize by rows", a, s, a=a0)
    a = a0.copy(); quiet(c.M.utils.normalize, a); rclose("normalize", a, a0 / a0.sum(), a=a0)
    a = a0[0].copy(); quiet(c.M.utils.normalize, a); rclose("normalize a vector", a, s[0], a=a0[0])
    l = lg(a0) + r.choice([0, -1e4, 500]); l0 = l.copy(); quiet(c.M.utils.log_normalize, l, axis=1); rclose("log_normalize by rows", np.exp(l), s, a=l0)


# -------------------------------------------------------------------- C11
@check("C11")
def c11(c):
    d = data_for_fit(c, ML_FAMS, pz=.45)
    if d is None: return
    fam, p, X, L = d; impl = c.impl(); r = c.rng; nc = p["nc"]
    if not (p["A"] == 0).any() and not (p["pi"] == 0).any(): return
    kw = {}
    if r.rand() < .6: kw["startprob_prior"] = float(r.uniform(1, 3)) if r.rand() < .5 else r.uniform(.5, 3, size=nc)
    if r.rand() < .6: kw["transmat_prior"] = float(r.uniform(1, 3)) if r.rand() < .5 else r.uniform(.5, 3, size=(nc, nc))
    m = make_model(c.M, p, impl, n_iter=int(r.randint(1, 4)), tol=-np.inf, **kw)
    try: quiet(m.fit, X, L)
    except ValueError: pass
    info = dict(family=fam, implementation=impl, kw=str(kw), pi=p["pi"], A=p["A"], X=X, lengths=L)
    ok1 = np.asarray(m.startprob_)[p["pi"] == 0]; ok2 = np.asarray(m.transmat_)[p["A"] == 0]
    need(((ok1 == 0) | np.isnan(ok1)).all(), "a zero start probability became nonzero", got=m.startprob_, **info)
    need(((ok2 == 0) | np.isnan(ok2)).all(), "a zero transition probability became nonzero", got=m.transmat_, **info)


# -------------------------------------------------------------------- C12
ATTR = {"s": ["startprob_"], "t": ["transmat_"]}
EATTR = {"cat": {"e": ["emissionprob_"]}, "mult": {"e": ["emissionprob_"]}, "pois": {"l": ["lambdas_"]},
         "gauss": {"m": ["means_"], "c": ["_covars_"]}, "gmm": {"m": ["means_"], "c": ["covars_"], "w": ["weights_"]},
         "vcat": {"s": ["startprob_prior_", "startprob_posterior_"], "t": ["transmat_prior_", "transmat_posterior_"], "e": ["emissionprob_prior_", "emissionprob_posterior_"]},
         "vgauss": {"s": ["startprob_prior_", "startprob_posterior_"], "t": ["transmat_prior_", "transmat_posterior_"],
                    "m": ["means_prior_", "means_posterior_", "beta_prior_", "beta_posterior_"], "c": ["dof_prior_", "dof_posterior_", "scale_prior_", "scale_posterior_"]}}


def attrs_of(kind):
    d = dict(ATTR); d.update(EATTR[kind]); return d


@check("C12")
def c12(c):
    d = data_for_fit(c, ALL_FAMS, n_lo=14, pz=.1)
    if d is None: return
    fam, p, X, L = d; kind = fam.partition("-")[0]; impl = c.impl(); r = c.rng
    codes = CODES[kind]
    params = "".join(x for x in codes if r.rand() < .5); init = "".join(x for x in codes if r.rand() < .4) if r.rand() < .6 else ""
    if kind == "cat" or kind == "vcat": X[: p["nf"], 0] = np.arange(p["nf"])[: len(X)]
    if len(X) <= p["nc"] * max(1, p["nm"]): return
    m = make_model(c.M, p, impl, n_iter=int(r.randint(0, 3)), tol=-np.inf, params=params, init_params=init)
    A = attrs_of(kind)
    unset = [x for x in codes if x not in init and r.rand() < .15] if not kind.startswith("v") else []
    unset = [x for x in unset if x not in "mc" or kind not in ("gmm",)]
    for x in unset:
        for a in A[x]: delattr(m, a)
    before = {a: np.array(getattr(m, a), copy=True) for x in codes for a in A[x] if hasattr(m, a)}
    info = dict(family=fam, implementation=impl, params=params, init_params=init, unset="".join(unset), n_iter=m.n_iter, nc=p["nc"], X=X, lengths=L)
    try: quiet(m.fit, X, L)
    except ValueError as e:
        if any(np.isnan(np.asarray(getattr(m, a), float)).any() for x in codes for a in A[x] if hasattr(m, a)): return
        if impl == "scaling" and "underflow" in str(e): return
        if "positive" in str(e) or "symmetric" in str(e) or "sum to 1" in str(e): return
        raise
    for x in codes:
        for a in A[x]:
            need(hasattr(m, a), "parameter missing after fit", attr=a, **info)
            after = np.asarray(getattr(m, a))
            if x not in init and x not in unset and (x not in params or a.endswith("prior_")):
                need(after.shape == before[a].shape and (after == before[a]).all(), "untrained, uninitialised parameter changed", attr=a, before=before[a], after=after, **info)
            elif (x in init or x in unset) and kind not in ("gmm",) and a in before and not a.endswith("prior_") and p["nc"] > 1 and x in "ste":
                need(not (after.shape == before[a].shape and (after == before[a]).all()), "parameter listed for initialisation was not initialised", attr=a, **info)


@check("C12")
def c12b(c):
    if c.i % 2: return one_step(c, ML_FAMS, (), "all")
    vb_step(c, "all")


# -------------------------------------------------------------------- C13
@check("C13")
def c13(c):
    d = data_for_fit(c, ALL_FAMS, n_lo=3, n_hi=14, pz=.2)
    if d is None: return
    fam, p, X, L = d; impl = c.impl(); r = c.rng
    if L is None: L = [len(X)]
    if not feasible(p, X, L): return
    m = make_model(c.M, p, impl); Lx = lengths_as(r, L); info = dict(family=fam, implementation=impl, X=X, lengths=L)
    parts = split(X, L)
    rclose("score = sum over sequences", quiet(m.score, X, Lx), sum(quiet(m.score, x) for x in parts), **info)
    rclose("posteriors concatenated", quiet(m.predict_proba, X, Lx), np.concatenate([quiet(m.predict_proba, x) for x in parts]), rtol=1e-6, atol=1e-9, **info)
    for alg in ("viterbi", "map"):
        ds = [quiet(m.decode, x, algorithm=alg) for x in parts]; g = quiet(m.decode, X, Lx, algorithm=alg)
        rclose(alg + " score", g[0], sum(x[0] for x in ds), **info); rclose(alg + " path", g[1], np.concatenate([x[1] for x in ds]), **info)
    if feasible(p, X, None):
        rclose("no lengths = one sequence", quiet(m.score, X), quiet(m.score, X, [len(X)]), **info)
        rclose("no lengths = one sequence (posteriors)", quiet(m.predict_proba, X), quiet(m.predict_proba, X, [len(X)]), **info)
    n = len(X); bads = [[n + 1], [n - 1] if n > 1 else [n + 2], L + [1], [0] + L, L + [0], [n, 0], [-1, n + 1], [n + 1, -1]]
    if len(L) > 1: bads.append(L[:-1]); bads.append(L[1:])
    if len(L) > 1: bads.append(L[:1] + [0] + L[1:])
    bad = bads[int(r.randint(len(bads)))]
    for op in ("score", "score_samples", "predict_proba", "decode", "predict", "fit"):
        mm = make_model(c.M, p, impl, n_iter=1)
        need(raises(getattr(mm, op), X, lengths_as(r, bad)), "invalid lengths accepted", operation=op, bad_lengths=bad, family=fam, n_samples=n, implementation=impl)
    mm = make_model(c.M, p, impl, n_iter=1, algorithm="map")
    need(raises(mm.decode, X, bad), "invalid lengths accepted by map decoding", bad_lengths=bad, n_samples=n)
    # fitted parameters do not depend on the order of the sequences; statistics add up
    if len(L) > 1:
        perm = r.permutation(len(L)); Xp = np.concatenate([parts[i] for i in perm]); Lp = [L[i] for i in perm]
        a = make_model(c.M, p, impl, n_iter=1); b = make_model(c.M, p, impl, n_iter=1)
        if fam.startswith("mult"): pass
        quiet(a.fit, X, L); quiet(b.fit, Xp, Lp)
        pa, pb = params_of(a, fam), params_of(b, fam)
        if all(np.isfinite(v).all() for v in pa.values()):
            for k in pa: rclose("fit of permuted sequences: " + k, pb[k], pa[k], rtol=1e-5, atol=1e-7, perm=perm, **info)


@check("C13")
def c13c(c):
    """long data, lengths given in any integer type that holds each length"""
    r = c.rng; fam = r.choice(["cat", "gauss-diag"]); p = gen_params(r, fam, 2, 2, 1, 0.)
    L = [int(x) for x in r.randint(1, 120, size=int(r.randint(2, 6)))]
    X = gen_X(r, p, sum(L)); m = make_model(c.M, p, c.impl()); want = sum(quiet(m.score, x) for x in split(X, L))
    for dt in (np.int8, np.uint8, np.int16, np.int32, np.int64):
        Lx = np.array(L, dt)
        rclose("score, lengths of type " + np.dtype(dt).name, quiet(m.score, X, Lx), want, family=fam, lengths=L)
        need(len(quiet(m.predict, X, Lx)) == len(X), "decoding, lengths of type " + np.dtype(dt).name, family=fam, lengths=L)
    # training from the random starting point too
    fam = str(r.choice(["cat", "gauss-diag", "vcat", "vgauss-full"])); X = gen_X(r, gen_params(r, fam, 2, 3, 1, 0.), sum(L)); got = []
    for Lx in (L, np.array(L, r.choice([np.int8, np.uint8, np.int16]))):
        m = fresh(c, fam, n_components=2, random_state=3, n_iter=2, tol=-np.inf); quiet(m.fit, X, Lx); got.append(params_of(m, fam))
    for k in got[0]: rclose("training, lengths of a narrow type: " + k, got[1][k], got[0][k], family=fam, lengths=L)


@check("C13")
def c13b(c):
    one_step(c, ML_FAMS, (), "all") if c.i % 3 else vb_step(c, "all")


# -------------------------------------------------------------------- C14
class EdgeRS(np.random.RandomState):
    """Random state whose uniform draws include the ends of [0, 1)."""
    def __init__(self, seed):
        super().__init__(seed); self.k = np.random.RandomState(seed + 1)

    def _edge(self, v):
        u = self.k.rand()
        return 0.0 if u < .2 else float(np.nextafter(1, 0)) if u < .4 else v

    def rand(self, *a): return self._edge(super().rand()) if not a else np.vectorize(self._edge)(super().rand(*a))

    def random_sample(self, size=None): return self._edge(super().random_sample()) if size is None else np.vectorize(self._edge)(super().random_sample(size))

    random = random_sample

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * (self._edge(super().uniform()) if size is None else np.vectorize(self._edge)(super().uniform(size=size)))


def g_test(name, obs, prob, **info):
    obs = np.asarray(obs, float); n = obs.sum(); e = n * prob
    need((obs[prob == 0] == 0).all(), name + ": impossible outcome produced", obs=obs, prob=prob, **info)
    k = prob > 0; dof = k.sum() - 1
    if dof < 1 or n < 50: return
    x2 = ((obs[k] - e[k]) ** 2 / e[k])
    from scipy.stats import chi2
    small = e[k].min()
    pv = chi2.sf(x2.sum(), dof)
    need(pv > 1e-10 or small < 5, name + ": frequencies incompatible with the model", obs=obs, expected=e, **info)


@check("C14")
def c14(c):
    fam = c.fam(ALL_FAMS); kind, _, ct = fam.partition("-"); r = c.rng
    nc, nf, nm, T = c.dims(fam); nc = min(nc, 5)
    p = gen_params(r, fam, nc, nf, nm, .3); m = make_model(c.M, p, c.impl())
    for w in ("pi", "A"):
        if r.rand() < .3 and not kind.startswith("v"):  # sums off by rounding
            p[w] = p[w] * (1 - 4e-6 * r.rand()); setattr(m, {"pi": "startprob_", "A": "transmat_"}[w], p[w].copy())
    n = int(r.randint(1, 40)); seed = int(r.randint(1e6))
    rs = [seed, np.random.RandomState(seed), EdgeRS(seed)][c.i // len(ALL_FAMS) % 3]
    cur = None if r.rand() < .5 else int(r.randint(nc))
    if kind == "mult" and isinstance(rs, EdgeRS): rs = seed
    X, Z = quiet(m.sample, n, random_state=rs, currstate=cur)
    info = dict(family=fam, n=n, currstate=cur, pi=p["pi"], A=p["A"], Z=Z, rs=type(rs).__name__)
    need(np.shape(Z) == (n,) and np.shape(X)[0] == n, "wrong number of samples", shape=str((np.shape(X), np.shape(Z))), **info)
    need(np.shape(X)[1] == (1 if kind in ("cat", "vcat") else nf), "wrong number of features", **info)
    need((Z >= 0).all() and (Z < nc).all(), "states out of range", **info)
    if cur is not None: need(Z[0] == cur, "the first state is not the requested one", **info)
    else: need(p["pi"][Z[0]] > 0, "start state of probability zero", **info)
    need(all(p["A"][Z[t], Z[t + 1]] > 0 for t in range(n - 1)), "transition of probability zero produced", **info)
    if kind in ("cat", "vcat"): need(all(p["B"][Z[t], int(X[t, 0])] > 0 for t in range(n)), "symbol of probability zero produced", X=X, B=p["B"], **info)
    if kind == "mult": need((X.sum(1) == p["ntr"]).all() and all((X[t][p["B"][Z[t]] == 0] == 0).all() for t in range(n)), "multinomial sample invalid", **info)
    # identifiable emissions: the observation belongs to its own state
    if kind in ("gauss", "gmm", "vgauss") and c.i % 2:
        q = dict(p); q["cov"] = p["cov"] * 1e-10; off = np.arange(nc) * 50.
        q["mu"] = p["mu"] * 0.1 + (off[:, None] if kind != "gmm" else off[:, None, None])
        if kind == "vgauss": q["mq"] = q["mu"]
        m2 = make_model(c.M, q)
        X, Z = quiet(m2.sample, n, random_state=seed, currstate=cur)
        need((np.round(X[:, 0] / 50.) == Z).all(), "observation not drawn from its own state's distribution", X=X, **info)


@check("C14")
def c14stat(c):
    if c.i % 6: return
    fam = ALL_FAMS[(c.i // 6) % len(ALL_FAMS)]; kind, _, ct = fam.partition("-"); r = c.rng
    nc = int(r.randint(2, 4)); nf = 2 if kind not in ("cat", "vcat", "mult") else 3; nm = 2
    p = gen_params(r, fam, nc, nf, nm, .2)
    if kind in ("gauss", "gmm", "vgauss"): p["cov"] = p["cov"] * (np.arange(1, nc + 1) ** 2.).reshape((-1,) + (1,) * (np.ndim(p["cov"]) - 1)) if ct != "tied" or kind == "gmm" else p["cov"]
    m = make_model(c.M, p); n = 3000
    if kind == "gauss" and ct == "spherical" and r.rand() < .6: m._covars_ = np.tile(p["cov"][:, None], (1, nf)) if hasattr(m, "_covars_") else None
    X, Z = quiet(m.sample, n, random_state=int(r.randint(1e6)))
    info = dict(family=fam, pi=p["pi"], A=p["A"])
    for i in range(nc):
        k = Z[:-1] == i
        if k.sum() > 50: g_test(f"transitions from state {i}", np.bincount(Z[1:][k], minlength=nc), p["A"][i], **info)
        Xi = X[Z == i]
        if len(Xi) < 300: continue
        if kind in ("cat", "vcat"): g_test("symbols", np.bincount(Xi[:, 0].astype(int), minlength=nf), p["B"][i], **info)
        elif kind == "mult": rclose("symbol frequencies", Xi.mean(0) / p["ntr"], p["B"][i], rtol=0, atol=7 * .5 / math.sqrt(len(Xi) * 1.), **info)
        elif kind == "pois": rclose("mean counts", Xi.mean(0) / np.sqrt(p["lam"][i]), np.sqrt(p["lam"][i]), rtol=0, atol=7 / math.sqrt(len(Xi)), **info)
        else:
            if kind == "gmm":
                Ss = [p["cov"][i] if ct == "tied" else full_cov(ct, p["cov"][i], k2, nf) for k2 in range(nm)]
                mu = p["w"][i] @ p["mu"][i]; S = sum(p["w"][i, k2] * (Ss[k2] + np.outer(p["mu"][i, k2] - mu, p["mu"][i, k2] - mu)) for k2 in range(nm))
            else: mu = p["mu"][i]; S = full_cov(ct, p["cov"], i, nf)
            sd = np.sqrt(np.diag(S)); N = len(Xi)
            rclose("sample mean in units of sd", (Xi.mean(0) - mu) / sd, 0 * mu, rtol=0, atol=7 / math.sqrt(N), state=i, **info)
            C = np.cov(Xi.T) / np.outer(sd, sd)
            rclose("sample covariance (standardised)", C, S / np.outer(sd, sd), rtol=0, atol=14 / math.sqrt(N), state=i, **info)
    st = []
    m.random_state = None
    rs = np.random.RandomState(int(r.randint(1e6)))
    for _ in range(300): st.append(quiet(m.sample, 1, random_state=rs)[1][0])
    g_test("start states", np.bincount(st, minlength=nc), p["pi"], **info)


# -------------------------------------------------------------------- C15
@check("C15")
def c15(c):
    fam = c.fam(ALL_FAMS); kind, _, ct = fam.partition("-"); r = c.rng
    nc, nf, nm, T = c.dims(fam); p = gen_params(r, fam, nc, nf, nm, .25); X = gen_X(r, p, T)
    if r.rand() < .3 and kind in ("gauss", "gmm", "vgauss"): X = X * r.choice([1e-3, 10.])
    if r.rand() < .3 and kind in ("gauss", "gmm"):  # data and means far from the origin, close to each other
        off = np.round(10 ** r.uniform(3, 9)); X = X + off; p["mu"] = p["mu"] + off
    if r.rand() < .4 and kind == "pois": X = np.floor(10 ** r.uniform(0, 4, size=X.shape)).astype(int)  # also counts far from the rates
    if r.rand() < .3 and kind == "mult":
        p["B"] = p["B"] ** r.uniform(1, 40); p["B"][:, -1] = p["B"].max(1); p["B"] = p["B"] / p["B"].sum(1, keepdims=True); p["ntr"] = int(r.randint(1, 40)); X = gen_X(r, p, T)
    lB = emis(p, X)
    for impl in ("log", "scaling"):
        m = make_model(c.M, p, impl)
        for k in range(nc):
            m.startprob_ = np.eye(nc)[k]; m.transmat_ = np.eye(nc)
            for t in r.permutation(T)[:3]:
                if impl == "scaling" and lB[t, k] < -600: continue
                got = quiet(m.score, X[t:t + 1])
                rclose("emission log density", got, lB[t, k], rtol=1e-8, atol=1e-9, family=fam, implementation=impl, state=k, x=X[t], **{a: p[a] for a in ("mu", "cov", "B", "lam", "w") if a in p})
            if T > 1 and np.isfinite(lB[:, k]).all() and (impl == "log" or lB[:, k].min() > -600):
                rclose("emission log density of several frames", quiet(m.score, X), lB[:, k].sum(), rtol=1e-8, family=fam, state=k, X=X)
    if kind in ("cat", "vcat"):
        for bad in (-1, -nf, nf, nf + 3, -nf - 1):
            Xb = X.copy(); Xb[int(r.randint(len(X))), 0] = bad; m = make_model(c.M, p, c.impl())
            for op in ("score", "predict_proba", "decode"):
                need(raises(getattr(m, op), Xb), "a symbol outside the alphabet was accepted", symbol=bad, op=op, family=fam, n_symbols=nf)


@check("C15")
def c15b(c):
    r = c.rng; ct = COV[c.i % 4]; nc, nf, _, T = c.dims("gauss-" + ct); X = r.randn(T, nf); mu = r.randn(nc, nf); cov = gen_cov(r, ct, nc, nf)
    got = quiet(c.M.stats.log_multivariate_normal_density, X, mu, cov, ct)
    want = np.stack([mvn_logpdf(X, mu[k], full_cov(ct, cov, k, nf)) for k in range(nc)], 1)
    rclose("log_multivariate_normal_density", got, want, covariance_type=ct, X=X, means=mu, covars=cov)
    if ct == "diag": rclose("default covariance type", quiet(c.M.stats.log_multivariate_normal_density, X, mu, cov), want)


# -------------------------------------------------------------------- C16
@check("C16")
def c16(c):
    r = c.rng; ct = COV[c.i % 4]; nc, nf, nm, T = c.dims("gauss-" + ct); cov = gen_cov(r, ct, nc, nf)
    want = np.stack([full_cov(ct, cov, k, nf) for k in range(nc)])
    cls = [lambda: c.M.hmm.GaussianHMM(nc, ct), lambda: c.M.vhmm.VariationalGaussianHMM(nc, ct)][c.i // 4 % 2]
    m = cls(); m.n_features = nf
    src = cov.copy(); m.covars_ = src if r.rand() < .5 else src.tolist()
    info = dict(covariance_type=ct, assigned=cov, cls=type(m).__name__)
    rclose("covars_ read back", m.covars_, want, **info)
    src[...] = 99.; rclose("covars_ aliases the assigned array", m.covars_, want, **info)
    rclose("fill_covars", c.M.utils.fill_covars(cov, ct, nc, nf), want, **info)
    g = m.covars_
    if g.base is None or ct != "full":
        if ct != "full":
            g[...] = 7.; rclose("covars_ reading is independent of the model", m.covars_, want, **info)
    bad = -cov if ct in ("spherical", "diag") else (cov - 10 * np.eye(nf))
    def setb(v): m.covars_ = v
    need(raises(setb, bad), "non-positive covariance accepted", bad=bad, **info)
    rclose("failed assignment leaves the model unchanged", m.covars_, want, **info)
    # scoring and sampling use that covariance
    p = gen_params(r, "gauss-" + ct, nc, nf); p["cov"] = cov
    m = make_model(c.M, p); X = gen_X(r, p, T)
    k = int(r.randint(nc)); m.startprob_ = np.eye(nc)[k]; m.transmat_ = np.eye(nc)
    full = m.covars_
    rclose("scoring uses the covariance read from the model", quiet(m.score, X), mvn_logpdf(X, p["mu"][k], full[k]).sum(), **info)
    # initialisation and fit
    n = max(20, 4 * nc); Xf = r.randn(n, nf) * 2 + 5 * r.randint(nc, size=n)[:, None]
    cv = np.atleast_2d(np.cov(Xf.T)) + (1e-3) * np.eye(nf)
    mm = cls(); mm.n_iter = 0; mm.random_state = 0
    if hasattr(mm, "min_covar"): mm.min_covar = [1e-3, 1, 0, .5, 1e-3][int(r.randint(5))]; cv = cv + (mm.min_covar - 1e-3) * np.eye(nf)
    quiet(mm.fit, Xf)
    wi = {"full": cv, "tied": cv, "diag": np.diag(np.diag(cv)), "spherical": cv.mean() * np.eye(nf)}[ct]
    rclose("initial covariance", mm.covars_, np.stack([wi] * nc), **info)
    mm = cls(); mm.n_iter = 2; mm.random_state = 0; mm.tol = -np.inf
    try: quiet(mm.fit, Xf)
    except ValueError: return
    full = mm.covars_
    if not np.isfinite(full).all(): return
    need(full.shape == (nc, nf, nf), "shape of the full covariances of a fitted model", shape=str(full.shape), **info)
    mm.startprob_ = np.eye(nc)[k]; mm.transmat_ = np.eye(nc)
    if type(mm).__name__ == "GaussianHMM" or True:
        if np.linalg.eigvalsh(full[k]).min() > 1e-6:
            rclose("scoring a fitted model uses its covariances", quiet(mm.score, Xf), mvn_logpdf(Xf, mm.means_[k], full[k]).sum(), rtol=1e-6, **info)
            class R(np.random.RandomState):
                def multivariate_normal(self, mean, cov, *a, **kw): self.got = np.array(cov); return super().multivariate_normal(mean, cov, *a, **kw)
            rs = R(0); quiet(mm.sample, 1, random_state=rs)
            if hasattr(rs, "got"): rclose("sampling uses the covariance", rs.got, full[k], **info)
            Xs, _ = quiet(mm.sample, 400, random_state=1)
            sd = np.sqrt(np.diag(full[k])); C = np.atleast_2d(np.cov(Xs.T)) / np.outer(sd, sd)
            rclose("covariance of samples (standardised)", C, full[k] / np.outer(sd, sd), rtol=0, atol=.9, **info)
    ct_f = c.M.hmm.__dict__.get("_utils")
    # GMM covariances: attribute kept as assigned
    p = gen_params(r, "gmm-" + ct, nc, nf, nm); g = make_model(c.M, p, n_iter=1, params="st"); Xg = gen_X(r, p, max(T, 4, nc + 1))
    try:
        quiet(g.score, Xg); rclose("mixture covariances kept", g.covars_, p["cov"]); quiet(g.fit, Xg); rclose("mixture covariances kept", g.covars_, p["cov"])
    except ValueError as e:
        if "sum to 1" not in str(e): raise


# -------------------------------------------------------------------- C17
@check("C17")
def c17(c):
    fams = ML_FAMS; fam = c.fam(fams); kind, _, ct = fam.partition("-"); r = c.rng
    for _ in range(30):
        nc, nf, nm, T = c.dims(fam); nc = max(nc, 2); p = gen_params(r, fam, nc, nf, nm, .1); X = gen_X(r, p, max(T, nc + 1))
        if feasible(p, X, None): break
    else: return
    ops = {"score": lambda m: m.score(X), "score_samples": lambda m: m.score_samples(X), "decode": lambda m: m.decode(X), "predict": lambda m: m.predict(X),
           "predict_proba": lambda m: m.predict_proba(X), "decode-map": lambda m: m.decode(X, algorithm="map"), "sample": lambda m: m.sample(2), "fit": lambda m: m.fit(X)}
    impl = c.impl()
    def mk(): return make_model(c.M, p, impl, n_iter=1)
    # valid, up to rounding-level perturbation and container type
    m = mk()
    if r.rand() < .5: m.startprob_ = (p["pi"] * (1 + 1e-9)).tolist(); m.transmat_ = (p["A"] * (1 - 1e-9)).tolist()
    on = list(ops)[int(r.randint(len(ops)))]
    try: quiet(ops[on], m)
    except Exception as e: raise Violation(f"valid {fam} model rejected by {on}: {e!r} pi={p['pi']} A={p['A']} X={X.tolist()}")

    bads = []
    def bad(name, **kw): bads.append((name, kw))
    k = int(r.randint(nc)); eps = float(r.choice([1e-3, .1, -1e-3, -.2, 5e-5, 1.]))
    v = p["pi"].copy(); v[k] += eps; bad("startprob sum", startprob_=v)
    A = p["A"].copy(); A[k, int(r.randint(nc))] += eps; bad("transmat row sum", transmat_=A)
    def nan(v): v = np.array(v, dtype=float); v[tuple(int(r.randint(d)) for d in v.shape)] = np.nan; return v
    bad("startprob not a number", startprob_=nan(p["pi"])); bad("transmat not a number", transmat_=nan(p["A"]))
    if kind == "cat": bad("categorical emission not a number", emissionprob_=nan(p["B"]))
    if kind == "gmm": bad("mixture weights not a number", weights_=nan(p["w"]))
    A2 = p["A"].copy(); 
    if nc > 1:
        j = int(r.randint(nc)); A2[k, j] += .25; A2[(k + 1) % nc, j] -= .25; bad("two row sums off, total right", transmat_=A2)
    bad("startprob too long", startprob_=np.append(p["pi"], 0.)); bad("startprob too short", startprob_=np.ones(nc - 1) / (nc - 1))
    bad("transmat with extra row", transmat_=np.vstack([p["A"], p["A"][:1]])); bad("transmat with extra column", transmat_=np.hstack([p["A"], np.zeros((nc, 1))]))
    bad("transmat missing row", transmat_=p["A"][:-1])
    if kind in ("cat", "mult"): bad("emission rows", emissionprob_=np.vstack([p["B"], p["B"][:1]])); bad("emission rows missing", emissionprob_=p["B"][:-1])
    if kind == "cat":
        bad("categorical emission sum", emissionprob_=p["B"] * (1 + abs(eps)))
    if kind == "pois": bad("rates rows", lambdas_=np.vstack([p["lam"], p["lam"][:1]]))
    if kind == "gmm":
        w = p["w"].copy(); w[k, int(r.randint(nm))] += eps; bad("mixture weights sum", weights_=w); bad("mixture weights shape", weights_=np.ones((nc, nm + 1)) / (nm + 1))
        bad("means shape", means_=p["mu"][:, :, :-1] if nf > 1 else np.zeros((nc, nm, 2))); bad("means components", means_=p["mu"][:-1])
        bad("covariance type", covariance_type="foo")
        cv = p["cov"].copy(); idx = tuple(int(r.randint(s)) for s in cv.shape[:len(cv.shape) - (2 if ct in ("full", "tied") else 0)])
        if ct in ("diag", "spherical"): cv[idx] = -1.
        else: cv[idx] = cv[idx] - 50 * np.eye(nf)
        bad("negative covariance", covars_=cv)
        if ct in ("full", "tied") and nf > 1:
            cv = p["cov"].copy(); cv[idx + (0, 1)] += 1.; bad("asymmetric covariance", covars_=cv)
        bad("covariance shape", covars_=p["cov"][:-1])
    if kind == "gauss": bad("covariance type", covariance_type="foo")
    name, kw = bads[int(r.randint(len(bads)))] if c.i % 3 else bads[(c.i // 3) % len(bads)]
    for on, op in ops.items():
        m = mk()
        for a, val in kw.items(): setattr(m, a, val)
        need(raises(op, m), "invalid parameters were not rejected", what=name, operation=on, family=fam, value=str(kw))


@check("C17")
def c17vb(c):
    """the variational models derive the chain from priors and posteriors: those of the wrong shape are rejected"""
    r = c.rng; fam = c.fam(VB_FAMS); kind, _, ct = fam.partition("-")
    nc, nf, nm, T = c.dims(fam); nc = max(nc, 2); p = gen_params(r, fam, nc, nf, nm, .1); X = gen_X(r, p, max(T, nc + 1))
    names = ["startprob_prior_", "startprob_posterior_", "transmat_prior_", "transmat_posterior_"]
    names += ["emissionprob_prior_", "emissionprob_posterior_"] if kind == "vcat" else ["means_prior_", "means_posterior_", "beta_prior_", "beta_posterior_", "dof_prior_", "dof_posterior_", "scale_prior_", "scale_posterior_"]
    m = make_model(c.M, p, c.impl(), n_iter=1); quiet(m.score, X)
    for a in names:
        v = np.asarray(getattr(m, a))
        if v.ndim == 0: continue
        bads = [v[:-1], np.concatenate([v, v[:1]])]
        if v.ndim > 1 : bads += [v[..., :-1], np.concatenate([v, v[..., :1]], -1)]
        for b in [bads[int(r.randint(len(bads)))]]:
            m = make_model(c.M, p, c.impl(), n_iter=1)
            setattr(m, a, b.astype(float))
            for on, op in (("score", lambda m: m.score(X)), ("fit", lambda m: m.fit(X)), ("decode", lambda m: m.decode(X)), ("sample", lambda m: m.sample(2))):
                need(raises(op, m), "prior or posterior of the wrong shape was not rejected", what=a, operation=on, family=fam, shape=b.shape)


@check("C17")
def c17cov(c):
    r = c.rng; ct = COV[c.i % 4]; nc, nf, _, _ = c.dims("gauss"); cov = gen_cov(r, ct, nc, nf)
    cls = [c.M.hmm.GaussianHMM, c.M.vhmm.VariationalGaussianHMM][c.i // 4 % 2]
    def assign(v, t=ct):
        m = cls(nc, t); m.n_features = nf; m.covars_ = v; return m
    try: assign(cov)
    except Exception as e: raise Violation(f"valid {ct} covariance rejected: {e!r} {cov.tolist()}")
    bads = []
    idx = int(r.randint(nc)); f = int(r.randint(nf))
    if ct == "spherical":
        for z in (0., -1e-3, -5.): v = cov.copy(); v[idx] = z; bads.append(v)
        bads.append(np.append(cov, 1.)); bads.append(cov[:-1])
    elif ct == "diag":
        for z in (0., -1e-3, -5.): v = cov.copy(); v[idx, f] = z; bads.append(v)
        bads.append(cov[:, :, None]); bads.append(cov[0])
    else:
        base = cov if ct == "tied" else cov[idx]
        w, U = np.linalg.eigh(base); w2 = w.copy(); w2[f] = -abs(w2[f]) * r.rand() - 1e-3; b1 = (U * w2) @ U.T
        b0 = np.diag(np.diag(base)); b0[f, f] = 0.                  # exactly singular
        alts = [b1, b0]
        if nf > 1:
            b2 = base.copy(); a, b = r.permutation(nf)[:2]; b2[a, b] += r.choice([.01, 1.]); alts.append(b2)
        for b in alts:
            if ct == "tied": bads.append(b)
            else: v = cov.copy(); v[idx] = b; bads.append(v)
        bads.append(cov[..., :-1] if nf > 1 else np.ones(cov.shape[:-1] + (2,)))
        if ct == "full": bads.append(cov[0])
    for b in bads: need(raises(assign, b), "invalid covariance accepted", covariance_type=ct, bad=b, cls=cls.__name__)
    need(raises(assign, cov, "foo"), "unknown covariance type accepted")


# -------------------------------------------------------------------- C18
def many(c, n, prob):
    """an iteration count, now and then a large one or one near a constant of the changed code"""
    r = c.rng
    if c.hints and r.rand() < .3:
        h = int(c.hints[r.randint(len(c.hints))]) + int(r.randint(-1, 3))
        if 1 <= h <= 600: return h
    return int(r.randint(20, 400)) if r.rand() < prob else n


@check("C18")
def c18(c):
    r = c.rng; CM = c.M.base.ConvergenceMonitor
    tol = float(r.choice([1e-2, 0., 1., -np.inf, .5, 1e-9, 1e-6])); n = many(c, int(r.randint(1, 7)), .05)
    mon = CM(tol, n, bool(r.rand() < .5)); seq = np.cumsum(r.choice([0., .5, 1., 1.5, .01, -.3, 2., 1e-9, 3e-9, 1e-6], size=n + 1)) if r.rand() < .7 else np.cumsum(r.randn(n + 1)) * 10. ** r.randint(-8, 3)
    hist = []
    for k, v in enumerate(seq[:n]):
        if r.rand() < .5: mon.converged
        quiet(mon.report, float(v)); hist.append(float(v))
        want = (k + 1 == n) or (k >= 1 and hist[-1] - hist[-2] < tol)
        need(bool(mon.converged) == want, "convergence verdict wrong", tol=tol, n_iter=n, history=hist, got=str(mon.converged))
        need(list(mon.history) == hist and mon.iter == k + 1, "history or iteration count wrong", history=hist, got=list(mon.history), iter=mon.iter)
    mon._reset() if hasattr(mon, "_reset") else None
    if hasattr(mon, "_reset"): need(len(mon.history) == 0 and mon.iter == 0, "reset incomplete")


@check("C18")
def c18fit(c):
    d = data_for_fit(c, ALL_FAMS, n_lo=12, n_hi=25, pz=.1)
    if d is None: return
    fam, p, X, L = d; r = c.rng; impl = c.impl(); n = many(c, int(r.randint(1, 7)), .01); tol = float(r.choice([1e-2, .3, 2., -np.inf, 1e9, 0.]))
    objs = []; q = make_model(c.M, p, impl, n_iter=1, tol=-np.inf)
    try:
        for k in range(n): quiet(q.fit, X, L); objs.append(q.monitor_.history[0])
    except ValueError: return
    objs = np.array(objs)
    if not np.isfinite(objs).all(): return
    exp = 0
    for k in range(n):
        exp = k + 1
        if k >= 1:
            g = objs[k] - objs[k - 1]
            if abs(g - tol) < 1e-6: return
            if g < tol: break
    m = make_model(c.M, p, impl, n_iter=n, tol=tol, verbose=bool(r.rand() < .5))
    if r.rand() < .3:  # an earlier fit was interrupted
        stop = int(r.randint(1, n + 1)); k = [0]; mstep = m._do_mstep
        def interrupted(stats):
            k[0] += 1
            if k[0] == stop: raise KeyboardInterrupt
            return mstep(stats)
        m._do_mstep = interrupted
        try: quiet(m.fit, X, L)
        except (KeyboardInterrupt, ValueError): pass
        del m._do_mstep; fresh_ = make_model(c.M, p, impl)
        for a, v in vars(fresh_).items():
            if a.endswith("_") and a != "monitor_": setattr(m, a, v)
    for rep in range(2):
        try: quiet(m.fit, X, L)
        except ValueError:
            if rep == 0: raise
            break
        info = dict(family=fam, implementation=impl, tol=tol, n_iter=n, objectives=objs, history=list(m.monitor_.history))
        need(len(m.monitor_.history) == m.monitor_.iter, "one history entry per iteration", **info)
        need(1 <= m.monitor_.iter <= n, "iteration count out of range", **info)
        if rep == 0:
            need(m.monitor_.iter == exp, "wrong number of iterations", expected=exp, **info)
            rclose("history", list(m.monitor_.history), objs[:exp], rtol=1e-6, atol=1e-7, **info)
            h = list(m.monitor_.history)
            rclose("history[0] is the objective of the starting parameters", h[0], objs[0], **info)
            if fam in ML_FAMS: rclose("history[0] vs oracle", h[0], oracle_score(p, X, L)[0], **info)
        need(bool(m.monitor_.converged) == (m.monitor_.iter == n or (len(m.monitor_.history) > 1 and m.monitor_.history[-1] - m.monitor_.history[-2] < tol)), "converged flag wrong", **info)
        a = q if False else None
    # parameters after the run equal those after the same number of single iterations
    q = make_model(c.M, p, impl, n_iter=1, tol=-np.inf); m = make_model(c.M, p, impl, n_iter=n, tol=tol)
    quiet(m.fit, X, L)
    for k in range(exp): quiet(q.fit, X, L)
    pa, pb = params_of(m, fam), params_of(q, fam)
    if all(np.isfinite(v).all() for v in pb.values()):
        for k in pa: rclose("parameters after fit: " + k, pa[k], pb[k], rtol=1e-5, atol=1e-7, **info)


# -------------------------------------------------------------------- C19
def n_free(p):
    kind, _, ct = p["fam"].partition("-"); nc, nf, nm = p["nc"], p["nf"], p["nm"]
    n = nc - 1 + nc * (nc - 1); tri = nf * (nf + 1) // 2
    if kind in ("cat", "mult"): return n + nc * (nf - 1)
    if kind == "pois": return n + nc * nf
    if kind == "gauss": return n + nc * nf + {"spherical": nc, "diag": nc * nf, "full": nc * tri, "tied": tri}[ct]
    return n + nc * (nm - 1) + nc * nm * nf + {"spherical": nc * nm, "diag": nc * nm * nf, "full": nc * nm * tri, "tied": nc * tri}[ct]


@check("C19")
def c19(c):
    s = setup(c, ML_FAMS)
    if s is None: return
    fam, p, X, L, impl, m = s; m.params = ["", m.params, "st"][int(c.rng.randint(3))]
    if c.rng.rand() < .5: m.n_features = p["nf"]
    elif fam.startswith("cat"): m.n_features = None
    elif fam.startswith("gauss") and c.rng.rand() < .5: m.n_features = p["nf"] + 1  # left over from earlier parameters
    else: vars(m).pop("n_features", None)
    LL = oracle_score(p, X, L)[0]; k = n_free(p); info = dict(family=fam, nc=p["nc"], nf=p["nf"], nm=p["nm"], n=len(X), lengths=L, k=k)
    Lx = lengths_as(c.rng, L); Xi = as_input(c, X)
    rclose("aic", quiet(m.aic, Xi, Lx), -2 * LL + 2 * k, **info)
    rclose("bic", quiet(m.bic, Xi, Lx), -2 * LL + k * math.log(len(X)), **info)
    if c.i % 10 == 0:
        b = c.M.base.BaseHMM(2); need(raises(b.aic, X) and raises(b.bic, X), "a model without parameter count answered")


# ---------------------------------------------------------------- C20 C21
def vb_step(c, focus):
    d = data_for_fit(c, VB_FAMS, pz=0)
    if d is None: return
    fam, p, X, L = d; impl = c.impl(); codes = CODES[fam.partition("-")[0]]
    params = codes if c.rng.rand() < .5 else "".join(x for x in codes if c.rng.rand() < .6)
    it = 1 if c.rng.rand() < .6 or "c" in params and "m" not in params else int(c.rng.randint(2, 4))
    m = make_model(c.M, p, impl, n_iter=it, tol=-np.inf, params=params); q = p
    for _ in range(it):
        lpi, lA, el = vb_sub(q)
        LL, start, trans, G = estep(q, X, L, lpi, lA, el)
        q = vb_update(q, X, start, trans, G, params)
    W = spec_params(q)
    info = dict(family=fam, implementation=impl, params=params, n_iter=it, X=X, lengths=L, posterior=p["Aq"])
    try: quiet(m.fit, as_input(c, X), lengths_as(c.rng, L))
    except ValueError as e:
        if "underflow" in str(e): return
        raise
    got = params_of(m, fam)
    for k in W:
        if focus == "all" or k in focus: rclose("variational update of " + k, got[k], W[k], rtol=1e-5, atol=1e-7, **info)


@check("C20")
def c20(c): vb_step(c, "all")


@check("C21")
def c21(c):
    d = data_for_fit(c, VB_FAMS, pz=0)
    if d is None: return
    fam, p, X, L = d; impl = c.impl(); it = int(c.rng.randint(1, 6))
    m = make_model(c.M, p, impl, n_iter=it, tol=-np.inf)
    try: quiet(m.fit, X, lengths_as(c.rng, L))
    except ValueError as e:
        if "underflow" in str(e): return
        raise
    h = np.array(m.monitor_.history); info = dict(family=fam, implementation=impl, X=X, lengths=L, history=h)
    lpi, lA, el = vb_sub(p); LL = estep(p, X, L, lpi, lA, el)[0]
    rclose("first lower bound", h[0], elbo(p, LL), rtol=1e-7, atol=1e-7, **info)
    need((np.diff(h) >= -1e-6 * max(1, np.abs(h).max())).all(), "lower bound decreased", **info)
    q = p
    for k in range(1, min(it, 3)):
        lpi, lA, el = vb_sub(q); _, s, t, G = estep(q, X, L, lpi, lA, el); q = vb_update(q, X, s, t, G, CODES[fam.partition("-")[0]])
        lpi, lA, el = vb_sub(q); rclose("lower bound", h[k], elbo(q, estep(q, X, L, lpi, lA, el)[0]), rtol=1e-6, atol=1e-6, k=k, **info)


# -------------------------------------------------------------------- C22
@check("C22")
def c22(c):
    K = c.M.kl; r = c.rng; n = int(r.randint(1, 7)); u = lambda *s: r.gamma(1.5, size=s or None) * r.choice([.1, 1., 10.]) + .05
    q, p = u(n), u(n); same = r.rand() < .3
    if same: p = q.copy()
    got = quiet(K.kl_dirichlet, q, p); rclose("kl_dirichlet", got, kl_dir(q, p), q=q, p=p); need(got >= -1e-7, "negative", q=q, p=p)
    if same: rclose("kl_dirichlet of equal laws", got, 0., atol=1e-8)
    rclose("kl_dirichlet (lists)", quiet(K.kl_dirichlet, q.tolist(), p.tolist()), kl_dir(q, p))
    mq, mp, vq, vp = r.randn() * 2, r.randn() * 2, float(u()), float(u())
    if same: mp, vp = mq, vq * (1 + 1e-9 * r.randn())
    want = .5 * (math.log(vp / vq) + ((mq - mp) ** 2 + vq) / vp - 1)
    got = quiet(K.kl_normal_distribution, mq, vq, mp, vp); rclose("kl_normal", got, want, atol=1e-12, args=str((mq, vq, mp, vp))); need(got >= -1e-12, "negative")
    d = int(r.randint(1, 5)); Sq, Sp = spd(r, d), spd(r, d); a, b = r.randn(d), r.randn(d)
    if same: Sp, b = Sq.copy(), a.copy()
    got = quiet(K.kl_multivariate_normal_distribution, a, Sq, b, Sp); rclose("kl_multivariate_normal", got, kl_mvn(a, Sq, b, Sp), a=a, Sq=Sq, b=b, Sp=Sp); need(got >= -1e-9, "negative")
    if c.i % 6 == 0:  # many dimensions, determinants outside the range of a double
        D = int(r.randint(60, 140)); s2 = 10 ** r.uniform(-5, 5, size=2); va, vb_ = (s2[0] * r.uniform(.5, 2, size=D), s2[r.randint(2)] * r.uniform(.5, 2, size=D)); ma, mb = r.randn(D) * np.sqrt(va), r.randn(D) * np.sqrt(vb_)
        rclose("kl_multivariate_normal (many dimensions)", quiet(K.kl_multivariate_normal_distribution, ma, np.diag(va), mb, np.diag(vb_)), .5 * (np.log(vb_ / va) + va / vb_ + (ma - mb) ** 2 / vb_ - 1).sum(), atol=1e-6, va=va, vb=vb_)
        da, db = D + float(u()), D + float(u()); rclose("kl_wishart (many dimensions)", quiet(K.kl_wishart_distribution, da, np.diag(va), db, np.diag(vb_)), kl_wish(da, np.diag(va), db, np.diag(vb_)), atol=1e-5, dofs=str((da, db)), va=va, vb=vb_)
    if d == 1: rclose("1-d normal", got, .5 * (math.log(Sp[0, 0] / Sq[0, 0]) + ((a[0] - b[0]) ** 2 + Sq[0, 0]) / Sp[0, 0] - 1))
    bq, cq, bp, cp = float(u()), float(u()), float(u()), float(u())
    if same: bp, cp = bq, cq * (1 + 1e-9 * r.randn())
    # shape b, rate c
    want = (bq - bp) * digamma(bq) - gammaln(bq) + gammaln(bp) + bp * (math.log(cq) - math.log(cp)) + bq * (cp - cq) / cq
    got = quiet(K.kl_gamma_distribution, bq, cq, bp, cp); rclose("kl_gamma", got, want, atol=1e-8, args=str((bq, cq, bp, cp))); need(got >= -1e-8, "negative")
    if c.i % 7 == 0 and bq > .5:
        from scipy.integrate import quad
        from scipy.stats import gamma as G
        f = lambda x: G.pdf(x, bq, scale=1 / cq) * (G.logpdf(x, bq, scale=1 / cq) - G.logpdf(x, bp, scale=1 / cp))
        hi = G.ppf(1 - 1e-13, bq, scale=1 / cq)
        val = quad(f, 0, hi, limit=300, points=[G.ppf(t, bq, scale=1 / cq) for t in (.01, .3, .7, .99)])[0]
        rclose("kl_gamma vs the defining integral", got, val, rtol=1e-3, atol=1e-3, args=str((bq, cq, bp, cp)))
    dq, dp = d + float(u()), d + float(u())
    if same: dp, Sp = dq, Sq.copy()
    want = kl_wish(dq, Sq, dp, Sp); got = quiet(K.kl_wishart_distribution, dq, Sq, dp, Sp)
    rclose("kl_wishart", got, want, rtol=1e-7, atol=1e-8, args=str((dq, Sq.tolist(), dp, Sp.tolist()))); need(got >= -1e-7, "negative")
    if same: rclose("kl_wishart of equal laws", got, 0., atol=1e-8)
    if d == 1:  # Wishart in one dimension is a gamma law with shape dof/2 and rate S/2
        rclose("1-d Wishart is gamma", got, (dq - dp) / 2 * digamma(dq / 2) - gammaln(dq / 2) + gammaln(dp / 2) + dp / 2 * math.log(Sq[0, 0] / Sp[0, 0]) + dq / 2 * (Sp[0, 0] - Sq[0, 0]) / Sq[0, 0], atol=1e-8)


# -------------------------------------------------------------------- C23
@check("C23")
def c23(c):
    H = c.M.hmmc; r = c.rng; nc = int(r.randint(1, 5)); ns = int(r.randint(1, 6))
    if c.hints and r.rand() < .2: ns = max(1, min(2000, int(c.hints[r.randint(len(c.hints))]) + int(r.randint(-1, 2))))
    pi, A = stoch(r, nc, .2), stoch(r, (nc, nc), .2); F = r.rand(ns, nc) + .01; lF = np.log(F)
    if r.rand() < .2: lF[r.randint(ns), r.randint(nc)] = NEG; F = np.exp(lF)
    def lay(a):
        k = r.randint(5)
        if k == 0: return np.asfortranarray(a)
        if k == 4: return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
        if k == 1 and a.ndim == 2: return np.repeat(np.repeat(a, 2, 0), 2, 1)[::2, ::2]
        if k == 2 and a.ndim == 1: return np.repeat(a, 3)[::3]
        return a
    if c.i % 2 == 0:  # consistent shapes: every element is filled with the specified value
        lpi, lA = lg(pi), lg(A)
        if best(lpi, lA, lF) == NEG: return
        junk = [np.full((ns, nc), np.nan) for _ in range(3)]; del junk
        a = np.empty((ns, nc)); b = np.zeros((ns, nc)); a[0] = lpi + lF[0]
        for t in range(1, ns): a[t] = lse(a[t - 1][:, None] + lA, 0) + lF[t]
        for t in range(ns - 2, -1, -1): b[t] = lse(lA + lF[t + 1] + b[t + 1], 1)
        L = lse(a[-1])
        info = dict(pi=pi, A=A, log_frameprob=lF)
        l, f = H.forward_log(lay(pi), lay(A), lay(lF)); rclose("forward_log", f, a, **info); rclose("forward_log value", l, L, **info)
        rclose("backward_log", H.backward_log(lay(pi), lay(A), lay(lF)), b, **info)
        _, _, xi = fb(lpi, lA, lF)
        rclose("compute_log_xi_sum", np.exp(H.compute_log_xi_sum(lay(a), lay(A), lay(b), lay(lF))), xi, rtol=1e-6, **info)
        l, fs, sc = H.forward_scaling(lay(pi), lay(A), lay(F)); rclose("forward_scaling value", l, L, **info)
        rclose("forward_scaling rows", fs, np.exp(a - lse(a, 1)[:, None]), **info)
        bs = H.backward_scaling(lay(pi), lay(A), lay(F), lay(sc))
        rclose("backward_scaling", fs * bs / sc[:, None], np.exp(a + b - L), rtol=1e-6, **info)
        rclose("compute_scaling_xi_sum", H.compute_scaling_xi_sum(lay(fs), lay(A), lay(bs), lay(F)), xi, rtol=1e-6, **info)
        l, z = H.viterbi(lay(pi), lay(A), lay(lF)); rclose("viterbi", l, best(lpi, lA, lF), **info)
        return
    # inconsistent shapes must be rejected
    def sh1(n): return r.rand(n)
    def sh2(n, m): return r.rand(n, m)
    d = lambda v: max(0, v + int(r.choice([-1, 1, 2, -v])))
    spec = {"forward_log": [(nc,), (nc, nc), (ns, nc)], "forward_scaling": [(nc,), (nc, nc), (ns, nc)], "backward_log": [(nc,), (nc, nc), (ns, nc)],
            "backward_scaling": [(nc,), (nc, nc), (ns, nc), (ns,)], "viterbi": [(nc,), (nc, nc), (ns, nc)],
            "compute_log_xi_sum": [(ns, nc), (nc, nc), (ns, nc), (ns, nc)], "compute_scaling_xi_sum": [(ns, nc), (nc, nc), (ns, nc), (ns, nc)]}
    for fn, shapes in spec.items():
        shp = [list(s) for s in shapes]; mode = r.rand()
        if mode < .2: shp = [[0 if (v == ns and ax == 0 and len(s0) > 1 and tuple(s0) != (nc, nc)) or (len(s0) == 1 and fn == "backward_scaling" and k == 3) else v for ax, v in enumerate(s0)] for k, s0 in enumerate(shapes)]
        elif mode < .3: shp = [[0] * len(s0) for s0 in shapes]
        else:
            k = int(r.randint(len(shp))); ax = int(r.randint(len(shp[k]))); shp[k][ax] = d(shp[k][ax])
            if r.rand() < .15: shp[k] = shp[k] + [1] if r.rand() < .5 else shp[k][:-1]
        if [tuple(s0) for s0 in shp] == [tuple(s0) for s0 in shapes]: continue
        args = [r.rand(*s0) if s0 else np.float64(.5) for s0 in shp]
        # a consistent permutation of sizes is legitimate
        T2 = shp[-1] if fn != "backward_scaling" else shp[2]
        if len(T2) == 2 and T2[0] > 0 and T2[1] > 0:
            n2, c2 = T2; ok = {"xi": [[n2, c2], [c2, c2], [n2, c2], [n2, c2]]}.get("xi" if "xi" in fn else "", [[c2], [c2, c2], [n2, c2]] + ([[n2]] if fn == "backward_scaling" else []))
            if [list(x) for x in shp] == ok: continue
        need(raises(getattr(H, fn), *args), "inconsistent or empty shapes accepted", function=fn, shapes=str(shp), expected=str(shapes))


# -------------------------------------------------------------------- C24
@check("C24")
def c24(c):
    d = data_for_fit(c, ALL_FAMS, pz=.1)
    if d is None: return
    fam, p, X, L = d; r = c.rng; impl = c.impl(); kind = fam.partition("-")[0]
    L = L or [len(X)]; Lx = np.array(L)
    if r.rand() < .5 and X.dtype.kind == "f": X = np.asfortranarray(X)
    codes = CODES[kind]
    m = make_model(c.M, p, impl, n_iter=2, init_params="" if r.rand() < .6 else codes, params=codes, tol=-np.inf)
    X0, L0 = X.copy(), Lx.copy(); info = dict(family=fam, implementation=impl, X=X0, lengths=L0)
    def snap(): return params_of(m, fam)
    def same(a, b): return a.keys() == b.keys() and all(a[k].shape == b[k].shape and ((a[k] == b[k]) | ((a[k] != a[k]) & (b[k] != b[k]))).all() for k in a)
    rets = []
    for op in r.permutation(["score", "score_samples", "predict_proba", "decode", "map", "predict", "aic", "sample"]):
        s0 = snap()
        if op == "sample": out = quiet(m.sample, 4, random_state=1)
        elif op == "map": out = quiet(m.decode, X, Lx, algorithm="map")
        elif op == "aic":
            if kind.startswith("v"): continue
            m.n_features = p["nf"]; out = quiet(m.aic, X, Lx)
        else: out = quiet(getattr(m, op), X, Lx)
        need((X == X0).all() and (Lx == L0).all(), "operation modified the caller's arrays", op=op, **info)
        need(same(s0, snap()), "query modified the model's parameters", op=op, **info)
        for o in (out if isinstance(out, tuple) else (out,)):
            if isinstance(o, np.ndarray): rets.append((op, o, o.copy()))
    reads = [(k, v, np.array(v, copy=True)) for k, v in vars(m).items() if isinstance(v, np.ndarray)]
    for op in ("score_samples", "decode"): quiet(getattr(m, op), X, Lx)
    for op, o, cpy in rets + reads: need(((o == cpy) | ((o != o) & (cpy != cpy))).all(), "an array returned earlier or read from the model was changed by a later query", op=op, **info)
    for op, o, _ in rets:
        need(not np.shares_memory(o, X) , "an operation returned the caller's memory", op=op, **info)
    if impl == "log" or True:
        try: quiet(m.fit, X, Lx)
        except ValueError: pass
    need((X == X0).all() and (Lx == L0).all(), "fit modified the caller's arrays", init_params=m.init_params, **info)
    # read-only inputs must be accepted
    X.flags.writeable = False; Lx.flags.writeable = False
    m = make_model(c.M, p, impl, n_iter=1)
    quiet(m.score, X, Lx); quiet(m.predict_proba, X, Lx); quiet(m.decode, X, Lx); quiet(m.fit, X, Lx)
    # arrays handed to the model as parameters
    a, b = p["pi"].copy(), p["A"].copy(); m = make_model(c.M, p, impl, n_iter=1); m.startprob_ = a; m.transmat_ = b
    quiet(m.score, X, Lx); quiet(m.predict_proba, X, Lx); quiet(m.decode, X, Lx)
    need((a == p["pi"]).all() and (b == p["A"]).all(), "parameter arrays modified by queries", **info)


# -------------------------------------------------------------------- C25
def fresh(c, fam, **kw):
    kind, _, ct = fam.partition("-"); M = c.M
    cls = {"cat": M.hmm.CategoricalHMM, "mult": M.hmm.MultinomialHMM, "pois": M.hmm.PoissonHMM, "gauss": M.hmm.GaussianHMM, "gmm": M.hmm.GMMHMM,
           "vcat": M.vhmm.VariationalCategoricalHMM, "vgauss": M.vhmm.VariationalGaussianHMM}[kind]
    if ct: kw["covariance_type"] = ct
    return cls(**kw)


@check("C25")
def c25(c):
    fam = c.fam(ALL_FAMS); kind, _, ct = fam.partition("-"); r = c.rng
    nc = int(r.randint(1, 4)); n = int(r.randint(15, 40)); X, nf = clean_fit_data(c, "cat" if kind == "vcat" else "gauss-x" if kind == "vgauss" else fam, n, nc)
    if kind == "gmm" and r.rand() < .6:  # a cluster smaller than the number of mixture components
        X = np.concatenate([X, np.full((1, nf), 500.)]); nc = max(nc, 2); n += 1
    seed = int(r.randint(1000)); kw = dict(n_components=nc, random_state=seed, n_iter=int(r.randint(0, 3)), implementation="log", tol=-np.inf)
    if kind == "gmm": kw["n_mix"] = int(r.randint(2, 4))
    L = None if r.rand() < .5 else [n // 2, n - n // 2]
    def run(m):
        np.random.seed(int(r.randint(1e6))); np.random.rand(3); st = np.random.get_state()
        try: quiet(m.fit, X, L)
        except ValueError: return None
        st2 = np.random.get_state()
        need(st[0] == st2[0] and (st[1] == st2[1]).all() and st[2:] == st2[2:], "fit consumed or reseeded the global random generator", family=fam, nc=nc)
        need(isinstance(m.random_state, int) and m.random_state == seed, "fit replaced the random state setting", family=fam, got=str(m.random_state))
        if kw["n_iter"] == 0 and kind in ("vcat", "vgauss"):
            return {k: np.array(v, copy=True) for k, v in vars(m).items() if isinstance(v, np.ndarray)}
        return params_of(m, fam)
    def eq(a, b, what):
        need((a is None) == (b is None), what + ": one run failed", family=fam)
        if a is None: return
        for k in a: need(a[k].shape == b[k].shape and np.array_equal(a[k], b[k], equal_nan=True), what, family=fam, attr=k, a=a[k], b=b[k], kw=str(kw))
    m1 = fresh(c, fam, **kw); a = run(m1); b = run(fresh(c, fam, **kw)); eq(a, b, "two equally configured models differ after fit")
    if fam not in ("vcat",) or True:
        b = run(m1); eq(a, b, "refitting the same model (all parameters re-initialised) differs")
    if a is None or (kw["n_iter"] == 0 and kind.startswith("v")): return
    if any(not np.isfinite(v).all() for v in a.values()): return
    try: quiet(m1.score, X, L)
    except ValueError: return
    m0 = copy.deepcopy(m1)
    for sd in (0, 1, seed + 1):  # a random state given to sample takes the place of the model's own
        m0.random_state = sd; s1 = quiet(m0.sample, 7); s2 = quiet(m1.sample, 7, random_state=sd)
        need(np.array_equal(s1[0], s2[0]) and np.array_equal(s1[1], s2[1]), "the random state given to sample is not the one used", family=fam, random_state=sd, own=seed)
    for rs in (None, 0, seed + 1):
        np.random.seed(int(r.randint(1e6))); st = np.random.get_state()
        s1 = quiet(m1.sample, 7, random_state=rs); np.random.rand(5); s2 = quiet(m1.sample, 7, random_state=rs)
        need(np.array_equal(s1[0], s2[0]) and np.array_equal(s1[1], s2[1]), "sampling with an integer random state is not deterministic", family=fam, random_state=str(rs))
        need(m1.random_state == seed, "sample replaced the random state setting", family=fam)
    np.random.seed(5); st = np.random.get_state(); quiet(m1.sample, 7); st2 = np.random.get_state()
    need((st[1] == st2[1]).all() and st[2] == st2[2], "sample consumed the global random generator", family=fam)
    np.random.seed(5); g0 = quiet(m1.sample, 5); quiet(m1.decode, X, L); quiet(m1.score, X, L); g1 = quiet(m1.sample, 5)
    need(np.array_equal(g0[0], g1[0]), "queries changed later samples", family=fam)


# -------------------------------------------------------------------- C26
@check("C26")
def c26(c):
    r = c.rng; nc = int(r.randint(1, 9)); kind = c.i % 5
    if kind == 0: A = stoch(r, (nc, nc))
    elif kind == 1:  # periodic
        A = np.roll(np.eye(nc), 1, axis=1); A = A[r.permutation(nc)] if False else A
    elif kind == 2:  # birth-death
        A = np.zeros((nc, nc))
        for i in range(nc):
            for j in (i - 1, i + 1):
                if 0 <= j < nc: A[i, j] = r.rand() + .1
            if A[i].sum() == 0: A[i, i] = 1
        A /= A.sum(1, keepdims=True)
    elif kind == 3:
        A = stoch(r, (nc, nc), .5); A = .7 * A + .3 * np.roll(np.eye(nc), 1, axis=1)
    else:  # block-periodic with random weights
        k = int(r.randint(1, 4)); sz = [int(r.randint(1, 4)) for _ in range(k)]; nc = sum(sz); A = np.zeros((nc, nc)); off = np.cumsum([0] + sz)
        for b in range(k):
            nb = (b + 1) % k; A[off[b]:off[b + 1], off[nb]:off[nb + 1]] = stoch(r, (sz[b], sz[nb]))
    rare = None
    if kind in (0, 3) and nc > 1 and r.rand() < .5:  # a state that is hardly ever entered
        rare = int(r.randint(nc)); others = np.arange(nc) != rare; eps = 10 ** -r.uniform(4, 10); A[:, rare] = np.where(others, eps, 0); A[rare] = np.where(others, 1., 0); A[others] = A[others] * .5 + .5 / nc
        A[:, rare] = np.where(others, eps, 0); A /= A.sum(1, keepdims=True)
    m = c.M.hmm.CategoricalHMM(nc) if r.rand() < .5 else c.M.hmm.GaussianHMM(nc); m.transmat_ = A if r.rand() < .7 else np.asfortranarray(A)
    A0 = A.copy(); v = quiet(m.get_stationary_distribution)
    info = dict(A=A0, v=v)
    need(np.shape(v) == (nc,) and np.isrealobj(v), "not a real vector of length n", **info)
    need((v >= -1e-9).all(), "negative stationary probability", **info)
    rclose("total", v.sum(), 1., **info); rclose("one step of the chain", v @ A0, v, rtol=1e-6, atol=1e-8, **info)
    if rare is not None: rclose("one step of the chain into a state that is hardly ever entered", (v @ A0)[rare], v[rare], rtol=1e-3, atol=1e-14, state=rare, **info)
    need((A == A0).all(), "transition matrix modified", **info)


# -------------------------------------------------------------------- C27
@check("C27")
def c27(c):
    r = c.rng; fam = c.fam(ALL_FAMS); kind, _, ct = fam.partition("-"); nc, nf, nm, _ = c.dims(fam); nc = min(nc, 4); nf = min(nf, 6)
    n = int(r.randint(20, 30)); p = gen_params(r, fam, nc, nf, nm, 0); X = gen_X(r, p, n); impl = c.impl()
    codes = CODES[kind]
    def mk(): return make_model(c.M, p, impl, n_iter=1, init_params="" if r.rand() < .5 else codes)
    bads = []
    if kind in ("cat", "vcat"):
        for v in (nf, -1, nf + 7): Xb = X.copy(); Xb[int(r.randint(n)), 0] = v; bads.append((f"symbol {v} of alphabet {nf}", Xb))
        bads.append(("float symbols", X + .5)); bads.append(("float dtype", X.astype(float)))
    elif kind == "mult":
        Xb = X.copy(); Xb[int(r.randint(n)), int(r.randint(nf))] += 1; bads.append(("row total off", Xb))
        Xb = X.copy(); i = int(r.randint(n)); Xb[i, 0] -= p["ntr"] + 1; Xb[i, 1] += p["ntr"] + 1; bads.append(("negative count", Xb))
        bads.append(("float counts", X + .5)); bads.append(("float dtype", X.astype(float)))
    if kind not in ("cat", "vcat"):
        bads.append(("too many features", np.hstack([X, X[:, :1]])));
        if nf > 1: bads.append(("too few features", X[:, 1:] if kind != "mult" else np.hstack([X[:, :1] + X[:, 1:2], X[:, 2:]])))
    for name, Xb in bads:
        m = mk(); m.n_features = nf; s0 = params_of(m, fam)
        need(raises(m.fit, Xb), "invalid training data accepted", what=name, family=fam, X=Xb)
        s1 = params_of(m, fam)
        need(all(np.array_equal(s0[k], s1[k]) for k in s0), "parameters changed although the data were rejected", what=name, family=fam)
    # valid data accepted, sizes inferred
    if kind in ("cat", "vcat"):
        X[:nf, 0] = r.permutation(nf)
        if nf > 2 and r.rand() < .5: X[X == int(r.randint(nf - 1))] = nf - 1  # a symbol below the largest never occurs
        m = fresh(c, fam, n_components=nc, random_state=0, n_iter=1, implementation=impl); quiet(m.fit, as_input(c, X))
        need(m.n_features == X.max() + 1 and m.emissionprob_.shape == (nc, X.max() + 1), "alphabet size not inferred as the largest symbol plus one", got=str(m.n_features), X=X)
        t, top = [("u1", 255), ("i1", 127), ("u1", 128), ("i2", 300)][int(r.randint(4))]; Xt = X.astype(t); Xt[int(r.randint(n)), 0] = top
        m = fresh(c, fam, n_components=nc, random_state=0, n_iter=1, implementation="log"); quiet(m.fit, Xt)
        need(m.n_features == top + 1 and m.emissionprob_.shape == (nc, top + 1), "alphabet size not inferred as the largest symbol plus one", got=str(m.n_features), X=Xt, dtype=t)
        m = fresh(c, fam, n_components=nc, n_features=nf + 2, random_state=0, n_iter=1, implementation=impl); quiet(m.fit, X)
        need(m.n_features == nf + 2 and m.emissionprob_.shape == (nc, nf + 2), "declared alphabet size not kept")
    elif kind == "mult":
        X2 = X + r.randint(0, 2, size=X.shape) if r.rand() < .5 else X
        X2 = X2 + 1
        m = fresh(c, fam, n_components=nc, random_state=0, n_iter=1, implementation=impl); quiet(m.fit, X2)
        need(np.array_equal(np.broadcast_to(m.n_trials, (n,)), X2.sum(1)), "row totals not taken from the data", got=m.n_trials, X=X2)
    else:
        if kind == "pois": X = X + 1
        if n > nc * nm * 2:
            m = fresh(c, fam, n_components=nc, random_state=0, n_iter=1, implementation="log"); quiet(m.fit, X); need(m.n_features == nf, "number of features not taken from the data")
    m = make_model(c.M, p, impl, n_iter=1); quiet(m.fit, X)
