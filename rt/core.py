"""Independent oracles and input generators used by the run-time contracts
(the falsifier / counterexample-replay half of the checks)."""
import itertools, math
import numpy as np
from scipy.special import gammaln, digamma, xlogy

NEG = -np.inf
COV = ["spherical", "diag", "full", "tied"]
ML_FAMS = ["cat"] + ["gauss-" + c for c in COV] + ["gmm-" + c for c in COV] + ["mult", "pois"]
VB_FAMS = ["vcat"] + ["vgauss-" + c for c in COV]
ALL_FAMS = ML_FAMS + VB_FAMS


class Violation(Exception):
    pass


def need(cond, msg, **info):
    if not cond:
        raise Violation(msg + (" | " + "; ".join(f"{k}={np.array2string(np.asarray(v), threshold=40) if not isinstance(v, (str, bool, type(None))) else v}" for k, v in info.items()) if info else ""))


def close(a, b, rtol=1e-7, atol=1e-9):
    a = np.asarray(a, float); b = np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        eq = (a == b) | (np.isnan(a) & np.isnan(b))
        d = np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))
    return bool(np.all(eq | (d & np.isfinite(a) & np.isfinite(b))))


def rclose(name, got, want, rtol=1e-7, atol=1e-9, **info):
    need(close(got, want, rtol, atol), name + " differs from its specification", got=got, want=want, **info)


# ---------------------------------------------------------------- generators
def stoch(rng, shape, pz=0.0):
    a = rng.gamma(1.0, size=shape) + 1e-3
    if pz:
        m = rng.rand(*np.atleast_1d(a).shape) < pz
        a2 = np.where(m, 0, a)
        flat = a2.reshape(-1, a2.shape[-1]); fa = a.reshape(-1, a.shape[-1])
        for r in range(len(flat)):
            if flat[r].sum() == 0:
                k = rng.randint(flat.shape[1]); flat[r, k] = fa[r, k]
        a = flat.reshape(a.shape)
    return a / a.sum(axis=-1, keepdims=True)


def spd(rng, d, lo=0.3):
    A = rng.randn(d, d)
    return A @ A.T / d + lo * np.eye(d)


def gen_cov(rng, ct, nc, nf):
    if ct == "spherical": return rng.gamma(2., size=nc) + .2
    if ct == "diag": return rng.gamma(2., size=(nc, nf)) + .2
    if ct == "full": return np.stack([spd(rng, nf) for _ in range(nc)])
    return spd(rng, nf)


def gen_params(rng, fam, nc, nf, nm=2, pz=0.25):
    p = dict(fam=fam, nc=nc, nf=nf, nm=nm, pi=stoch(rng, nc, pz), A=stoch(rng, (nc, nc), pz))
    kind, _, ct = fam.partition("-")
    p["ct"] = ct
    if kind == "cat": p["B"] = stoch(rng, (nc, nf), pz)
    elif kind == "mult":
        p["B"] = stoch(rng, (nc, nf), 0); p["ntr"] = int(rng.randint(1, 6))
    elif kind == "pois": p["lam"] = rng.gamma(2., size=(nc, nf)) + .1
    elif kind == "gauss":
        p["mu"] = rng.randn(nc, nf) * 1.5; p["cov"] = gen_cov(rng, ct, nc, nf)
    elif kind == "gmm":
        p["w"] = stoch(rng, (nc, nm), pz / 2); p["mu"] = rng.randn(nc, nm, nf) * 1.5
        if ct == "tied": p["cov"] = np.stack([spd(rng, nf) for _ in range(nc)])
        else:
            c = gen_cov(rng, ct, nc * nm, nf); p["cov"] = c.reshape((nc, nm) + c.shape[1:])
    elif kind == "vcat":
        p["pi0"] = rng.gamma(1., size=nc) + .2; p["piq"] = rng.gamma(2., size=nc) + .3
        p["A0"] = rng.gamma(1., size=(nc, nc)) + .2; p["Aq"] = rng.gamma(2., size=(nc, nc)) + .3
        p["B0"] = rng.gamma(1., size=(nc, nf)) + .2; p["Bq"] = rng.gamma(2., size=(nc, nf)) + .3
    elif kind == "vgauss":
        p["pi0"] = rng.gamma(1., size=nc) + .2; p["piq"] = rng.gamma(2., size=nc) + .3
        p["A0"] = rng.gamma(1., size=(nc, nc)) + .2; p["Aq"] = rng.gamma(2., size=(nc, nc)) + .3
        p["m0"] = rng.randn(nc, nf); p["mq"] = rng.randn(nc, nf) * 1.5
        p["b0"] = rng.gamma(1., size=nc) + .3; p["bq"] = rng.gamma(3., size=nc) + .5
        if ct == "tied":
            p["d0"] = float(nf + rng.rand()); p["dq"] = float(nf + rng.gamma(3.)); p["S0"] = spd(rng, nf); p["Sq"] = spd(rng, nf) * 3
        else:
            p["d0"] = nf + rng.rand(nc); p["dq"] = nf + rng.gamma(3., size=nc)
            p["S0"] = gen_cov(rng, ct, nc, nf); p["Sq"] = gen_cov(rng, ct, nc, nf) * 3
    p["style"] = str(rng.choice(["list", "F", "strided", "readonly"])) if rng.rand() < .2 else ""
    if rng.rand() < .15: integral(rng, p)
    if rng.rand() < .15 and not kind.startswith("v"): tiny(rng, p)
    if kind.startswith("v"):
        p["pi"] = p["piq"] / p["piq"].sum(); p["A"] = p["Aq"] / p["Aq"].sum(1)[:, None]
        if kind == "vcat": p["B"] = p["Bq"] / p["Bq"].sum(1)[:, None]
        else:
            p["mu"] = p["mq"]; d = p["dq"]
            p["cov"] = p["Sq"] / (d if np.ndim(d) == 0 else np.asarray(d).reshape((-1,) + (1,) * (np.ndim(p["Sq"]) - 1)))
    return p


def tiny(rng, p):
    """some probabilities are tiny but not zero"""
    for k in ("pi", "A", "B"):
        if k in p and rng.rand() < .7:
            v = p[k] * np.where(rng.rand(*p[k].shape) < .3, 10. ** -rng.uniform(4, 14, size=p[k].shape), 1.)
            if k == "B" and p["fam"] == "mult": v[:, -1] = 1.  # SciPy takes the last probability to be one minus the others, losing digits of a tiny one
            p[k] = v / v.sum(axis=-1, keepdims=True)


def integral(rng, p):
    """some parameters take integer values and an integer type, as when a user writes them as integer literals"""
    as_int = lambda v: np.rint(v).astype(int)
    for k in ("mu", "m0", "mq"):
        if k in p and rng.rand() < .7: p[k] = as_int(p[k])
    for k in ("lam", "b0", "bq", "d0", "dq", "pi0", "piq", "A0", "Aq", "B0", "Bq"):
        if k in p and rng.rand() < .4: p[k] = as_int(np.ceil(p[k])) if np.ndim(p[k]) else int(np.ceil(p[k]))
    if rng.rand() < .6:
        for k in ("cov", "S0", "Sq"):
            if k not in p: continue
            if p["ct"] in ("spherical", "diag"): p[k] = as_int(np.ceil(p[k]))
            else: p[k] = as_int(np.ceil(p[k])) * np.eye(p["nf"], dtype=int)


def gen_X(rng, p, n):
    kind = p["fam"].partition("-")[0]; nf = p["nf"]
    if kind in ("cat", "vcat"): return rng.randint(0, nf, size=(n, 1))
    if kind == "mult": return rng.multinomial(p["ntr"], np.ones(nf) / nf, size=n)
    if kind == "pois": return rng.poisson(2., size=(n, nf))
    return rng.randn(n, nf) * 2


def make_model(M, p, impl="log", **kw):
    """M: namespace with hmm, vhmm, base.  Parameters are all set; nothing is initialised by fit
    unless init_params is given."""
    fam = p["fam"]; kind = fam.partition("-")[0]
    kw.setdefault("init_params", ""); kw.setdefault("random_state", 0)
    nc = p["nc"]
    if kind == "cat":
        m = M.hmm.CategoricalHMM(nc, implementation=impl, **kw); m.emissionprob_ = p["B"].copy()
        m.n_features = p["nf"]
    elif kind == "mult":
        m = M.hmm.MultinomialHMM(nc, n_trials=p["ntr"], implementation=impl, **kw); m.emissionprob_ = p["B"].copy()
    elif kind == "pois":
        m = M.hmm.PoissonHMM(nc, implementation=impl, **kw); m.lambdas_ = p["lam"].copy()
    elif kind == "gauss":
        m = M.hmm.GaussianHMM(nc, p["ct"], implementation=impl, **kw); m.means_ = p["mu"].copy(); m.n_features = p["nf"]; m.covars_ = p["cov"].copy()
    elif kind == "gmm":
        m = M.hmm.GMMHMM(nc, p["nm"], covariance_type=p["ct"], implementation=impl, **kw)
        m.n_features = p["nf"]; m.weights_ = p["w"].copy(); m.means_ = p["mu"].copy(); m.covars_ = p["cov"].copy()
    elif kind == "vcat":
        m = M.vhmm.VariationalCategoricalHMM(nc, n_features=p["nf"], implementation=impl, **kw)
        m.emissionprob_prior_ = p["B0"].copy(); m.emissionprob_posterior_ = p["Bq"].copy(); m.emissionprob_ = p["B"].copy()
    elif kind == "vgauss":
        m = M.vhmm.VariationalGaussianHMM(nc, p["ct"], implementation=impl, **kw); m.n_features = p["nf"]
        cp = lambda v: v if np.ndim(v) == 0 else v.copy()
        m.means_prior_ = p["m0"].copy(); m.means_posterior_ = p["mq"].copy(); m.beta_prior_ = p["b0"].copy(); m.beta_posterior_ = p["bq"].copy()
        m.dof_prior_ = cp(p["d0"]); m.dof_posterior_ = cp(p["dq"]); m.scale_prior_ = p["S0"].copy(); m.scale_posterior_ = p["Sq"].copy()
        m._covars_ = p["cov"].copy()
    if kind.startswith("v"):
        m.startprob_prior_ = p["pi0"].copy(); m.startprob_posterior_ = p["piq"].copy()
        m.transmat_prior_ = p["A0"].copy(); m.transmat_posterior_ = p["Aq"].copy()
    m.startprob_ = p["pi"].copy(); m.transmat_ = p["A"].copy()
    if p.get("style"):
        for k, v in list(vars(m).items()):
            if k.endswith("_") and k != "_covars_" and isinstance(v, np.ndarray) and (p["style"] != "list" or k == "startprob_" or k == "emissionprob_" and kind in ("cat", "mult")): setattr(m, k, as_param(v, p["style"]))
    return m


def as_param(v, style):
    """the same parameter as a list, in column-major or strided storage, or read-only"""
    if style == "list": return v.tolist()
    if style == "F": return np.asfortranarray(v)
    if style == "strided": return np.repeat(v, 2, axis=0)[::2]
    v = v.copy(); v.flags.writeable = False
    return v


def split(X, lengths):
    if lengths is None: return [X]
    out = []; i = 0
    for n in lengths: out.append(X[i:i + n]); i += n
    return out


def rand_lengths(rng, n):
    if rng.rand() < .4: return None
    out = []; left = n
    while left:
        k = int(rng.randint(1, left + 1)); out.append(k); left -= k
    return out


def lengths_as(rng, L):
    if L is None: return None
    r = rng.randint(4)
    if r == 3: return np.array(L, dtype=rng.choice([t for t in ("i1", "u1", "i2", "u4") if max(L) <= np.iinfo(t).max and min(L) >= np.iinfo(t).min]))
    return list(L) if r == 0 else tuple(L) if r == 1 else np.array(L)


# ------------------------------------------------------------------- oracles
def full_cov(ct, cov, k, nf):
    if ct == "spherical": return np.eye(nf) * cov[k]
    if ct == "diag": return np.diag(cov[k])
    if ct == "full": return cov[k]
    return cov


def mvn_logpdf(X, mu, S):
    d = X - mu; nf = S.shape[0]
    sign, ld = np.linalg.slogdet(S)
    q = np.einsum("ti,ti->t", d, np.linalg.solve(S, d.T).T)
    return -.5 * (nf * math.log(2 * math.pi) + ld + q)


def lse(a, axis=None):
    a = np.asarray(a, float)
    m = np.max(a, axis=axis, keepdims=True); m = np.where(np.isfinite(m), m, 0)
    with np.errstate(all="ignore"):
        r = np.log(np.sum(np.exp(a - m), axis=axis, keepdims=True)) + m
    return np.squeeze(r, axis=axis) if axis is not None else float(r.reshape(()))


def lg(x):
    with np.errstate(divide="ignore"): return np.log(x)


def gmm_comp(p, X, k):
    ct = p["ct"]; nf = p["nf"]; out = np.empty((len(X), p["nm"]))
    for m in range(p["nm"]):
        S = p["cov"][k] if ct == "tied" else full_cov(ct, p["cov"][k], m, nf)
        out[:, m] = lg(p["w"][k, m]) + mvn_logpdf(X, p["mu"][k, m], S)
    return out


def emis(p, X):
    X = np.asarray(X); kind = p["fam"].partition("-")[0]; nc = p["nc"]; out = np.empty((len(X), nc))
    for k in range(nc):
        if kind in ("cat", "vcat"): out[:, k] = [lg(p["B"][k, int(x)]) for x in X[:, 0]]
        elif kind == "mult":
            out[:, k] = gammaln(X.sum(1) + 1) - gammaln(X + 1).sum(1) + xlogy(X, p["B"][k]).sum(1)
        elif kind == "pois": out[:, k] = (xlogy(X, p["lam"][k]) - p["lam"][k] - gammaln(X + 1)).sum(1)
        elif kind in ("gauss", "vgauss"): out[:, k] = mvn_logpdf(X, p["mu"][k], full_cov(p["ct"], p["cov"], k, p["nf"]))
        elif kind == "gmm": out[:, k] = lse(gmm_comp(p, X, k), 1)
    return out


def paths(lpi, lA, lB):
    T, nc = lB.shape
    P = np.array(list(itertools.product(range(nc), repeat=T)))
    s = lpi[P[:, 0]] + lB[0, P[:, 0]]
    for t in range(1, T): s = s + lA[P[:, t - 1], P[:, t]] + lB[t, P[:, t]]
    return P, s


def fb(lpi, lA, lB, brute=600):
    """log likelihood, gamma (T,nc), xi (nc,nc)"""
    T, nc = lB.shape
    if nc ** T <= brute:
        P, s = paths(lpi, lA, lB); L = lse(s)
        g = np.zeros((T, nc)); xi = np.zeros((nc, nc))
        if L == NEG: return L, np.full((T, nc), np.nan), xi
        w = np.exp(s - L)
        for t in range(T): np.add.at(g[t], P[:, t], w)
        for t in range(T - 1): np.add.at(xi, (P[:, t], P[:, t + 1]), w)
        return L, g, xi
    a = np.empty((T, nc)); b = np.zeros((T, nc)); a[0] = lpi + lB[0]
    for t in range(1, T): a[t] = lse(a[t - 1][:, None] + lA, 0) + lB[t]
    for t in range(T - 2, -1, -1): b[t] = lse(lA + lB[t + 1] + b[t + 1], 1)
    L = lse(a[-1])
    if L == NEG: return L, np.full((T, nc), np.nan), np.zeros((nc, nc))
    xi = np.zeros((nc, nc))
    with np.errstate(all="ignore"):
        for t in range(T - 1): xi += np.exp(a[t][:, None] + lA + lB[t + 1] + b[t + 1] - L)
        g = np.exp(a + b - L)
    return L, g, xi


def best(lpi, lA, lB):
    T, nc = lB.shape
    v = lpi + lB[0]
    for t in range(1, T): v = np.max(v[:, None] + lA, 0) + lB[t]
    return np.max(v)


def path_score(lpi, lA, lB, z):
    s = lpi[z[0]] + lB[0, z[0]]
    for t in range(1, len(z)): s += lA[z[t - 1], z[t]] + lB[t, z[t]]
    return s


def estep(p, X, lengths, lpi=None, lA=None, elog=None):
    lpi = lg(p["pi"]) if lpi is None else lpi; lA = lg(p["A"]) if lA is None else lA
    L = 0.; start = np.zeros(p["nc"]); trans = np.zeros((p["nc"], p["nc"])); gs = []
    for Xs in split(np.asarray(X), lengths):
        lB = emis(p, Xs) if elog is None else elog(Xs)
        l, g, xi = fb(lpi, lA, lB)
        L += l; start += g[0]; trans += xi; gs.append(g)
    return L, start, trans, np.concatenate(gs)


def norm_rows(a):
    s = a.sum(-1, keepdims=True)
    return a / np.where(s == 0, 1, s)


def mstep(p, X, start, trans, G, pri, params):
    """Specification of one M-step.  pri: prior hyper-parameters (defaults filled in)."""
    q = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in p.items()}
    kind = p["fam"].partition("-")[0]; ct = p["ct"]; nf = p["nf"]; nc = p["nc"]
    if "s" in params:
        v = np.where(p["pi"] == 0, 0, np.maximum(pri.get("startprob_prior", 1.) - 1 + start, 0)); q["pi"] = v / v.sum()
    if "t" in params:
        q["A"] = norm_rows(np.where(p["A"] == 0, 0, np.maximum(pri.get("transmat_prior", 1.) - 1 + trans, 0)))
    X = np.asarray(X)
    if kind == "cat" and "e" in params:
        c = np.zeros((nc, nf))
        for t, x in enumerate(X[:, 0]): c[:, int(x)] += G[t]
        q["B"] = norm_rows(np.maximum(pri.get("emissionprob_prior", 1.) - 1 + c, 0))
    if kind == "mult" and "e" in params:
        c = G.T @ X; q["B"] = c / c.sum(1, keepdims=True)
    if kind == "pois" and "l" in params:
        q["lam"] = (pri.get("lambdas_prior", 0.) + G.T @ X) / (pri.get("lambdas_weight", 0.) + G.sum(0)[:, None])
    if kind == "gauss":
        mp = np.broadcast_to(pri.get("means_prior", 0.), (nc, nf)); mw = np.broadcast_to(np.asarray(pri.get("means_weight", 0.)), (nc, nf)) if np.ndim(pri.get("means_weight", 0.)) else pri.get("means_weight", 0.)
        N = G.sum(0)
        if "m" in params: q["mu"] = (mw * mp + G.T @ X) / (mw + N[:, None])
        if "c" in params:
            mu = q["mu"]; cp = pri.get("covars_prior", 1e-2); cw = pri.get("covars_weight", 1.)
            Sc = np.stack([np.einsum("t,ti,tj->ij", G[:, k], X - mu[k], X - mu[k]) + mw * np.outer(mu[k] - mp[k], mu[k] - mp[k]) for k in range(nc)])
            if ct in ("diag", "spherical"):
                d = np.stack([np.diag(s) for s in Sc])
                cv = (cp + d) / np.maximum(max(cw - 1, 0) + N[:, None], 1e-5)
                q["cov"] = cv if ct == "diag" else cv.mean(1)
            elif ct == "full": q["cov"] = (cp + Sc) / (max(cw - nf, 0) + N[:, None, None])
            else: q["cov"] = (cp + Sc.sum(0)) / (max(cw - nf, 0) + N.sum())
    if kind == "gmm":
        nm = p["nm"]; R = np.empty((len(X), nc, nm))
        for k in range(nc):
            lc = gmm_comp(p, X, k); R[:, k] = np.exp(lc - lse(lc, 1)[:, None]) * G[:, k][:, None]
        N = R.sum(0); am1 = np.broadcast_to(pri.get("weights_prior", 1.), (nc, nm)) - 1
        lam = np.broadcast_to(pri.get("means_weight", 0.), (nc, nm)); m0 = np.broadcast_to(pri.get("means_prior", 0.), (nc, nm, nf))
        if "w" in params: q["w"] = (N + am1) / (G.sum(0) + am1.sum(1))[:, None]
        if "m" in params: q["mu"] = (lam[:, :, None] * m0 + np.einsum("tkm,ti->kmi", R, X)) / (N + lam)[:, :, None]
        if "c" in params:
            D = X[:, None, None, :] - p["mu"]; dm = q["mu"] - m0
            Sc = np.einsum("tkm,tkmi,tkmj->kmij", R, D, D) + lam[:, :, None, None] * dm[..., :, None] * dm[..., None, :]
            cp, cw = pri.get("covars_prior"), pri.get("covars_weight")
            if ct == "full":
                cp = 0. if cp is None else cp; cw = -(nf + 2.) if cw is None else np.broadcast_to(cw, (nc, nm))[:, :, None, None]
                cp = np.swapaxes(np.broadcast_to(cp, Sc.shape), -1, -2)
                q["cov"] = (cp + Sc) / (N[:, :, None, None] + nf + 2 + cw)
            elif ct == "diag":
                cp = -1.5 if cp is None else cp; cw = 0. if cw is None else cw
                q["cov"] = (np.einsum("kmii->kmi", Sc) + 2 * cw) / (N[:, :, None] + 1 + 2 * (cp + 1))
            elif ct == "spherical":
                cp = -(nf + 2.) / 2 if cp is None else cp; cw = 0. if cw is None else cw
                q["cov"] = (np.einsum("kmii->km", Sc) + 2 * cw) / (nf * (N + 1) + 2 * (cp + 1))
            else:
                cp = 0. if cp is None else cp; cw = -(nm + nf + 1.) if cw is None else np.broadcast_to(cw, nc)[:, None, None]
                cp = np.swapaxes(np.broadcast_to(cp, (nc, nf, nf)), -1, -2)
                q["cov"] = (cp + Sc.sum(1)) / (G.sum(0)[:, None, None] + nm + nf + 1 + cw)
    return q


def params_of(m, fam):
    kind = fam.partition("-")[0]
    out = dict(pi=m.startprob_, A=m.transmat_)
    if kind in ("cat", "mult", "vcat"): out["B"] = m.emissionprob_
    elif kind == "pois": out["lam"] = m.lambdas_
    elif kind in ("gauss", "vgauss"):
        out["mu"] = m.means_; out["covfull"] = m.covars_
    elif kind == "gmm": out.update(w=m.weights_, mu=m.means_, cov=m.covars_)
    if kind.startswith("v"):
        out.update(pi0=m.startprob_prior_, piq=m.startprob_posterior_, A0=m.transmat_prior_, Aq=m.transmat_posterior_)
        if kind == "vcat": out.update(B0=m.emissionprob_prior_, Bq=m.emissionprob_posterior_)
        else: out.update(m0=m.means_prior_, mq=m.means_posterior_, b0=m.beta_prior_, bq=m.beta_posterior_, d0=m.dof_prior_, dq=m.dof_posterior_, S0=m.scale_prior_, Sq=m.scale_posterior_)
    return {k: np.array(v, copy=True) for k, v in out.items()}


def spec_params(q):
    """The same view computed from a specification parameter set."""
    kind = q["fam"].partition("-")[0]
    out = dict(pi=q["pi"], A=q["A"])
    if kind in ("cat", "mult", "vcat"): out["B"] = q["B"]
    elif kind == "pois": out["lam"] = q["lam"]
    elif kind in ("gauss", "vgauss"):
        out["mu"] = q["mu"]; out["covfull"] = np.stack([full_cov(q["ct"], q["cov"], k, q["nf"]) for k in range(q["nc"])])
    elif kind == "gmm": out.update(w=q["w"], mu=q["mu"], cov=q["cov"])
    if kind.startswith("v"):
        for k in ("pi0", "piq", "A0", "Aq") + (("B0", "Bq") if kind == "vcat" else ("m0", "mq", "b0", "bq", "d0", "dq", "S0", "Sq")): out[k] = q[k]
    return {k: np.array(v, copy=True) for k, v in out.items()}


# ------------------------------------------------------------- variational
def vb_sub(p):
    lpi = digamma(p["piq"]) - digamma(p["piq"].sum()); lA = digamma(p["Aq"]) - digamma(p["Aq"].sum(1))[:, None]
    if p["fam"] == "vcat":
        E = digamma(p["Bq"]) - digamma(p["Bq"].sum(1))[:, None]
        return lpi, lA, lambda X: np.stack([E[:, int(x)] for x in X[:, 0]])
    nf = p["nf"]; ct = p["ct"]

    def elog(X):
        out = np.empty((len(X), p["nc"]))
        for k in range(p["nc"]):
            S = full_cov(ct, p["Sq"], k, nf); d = p["dq"] if ct == "tied" else p["dq"][k]
            W = np.linalg.inv(S)
            eld = sum(digamma((d - i) / 2) for i in range(nf)) + nf * math.log(2) + np.linalg.slogdet(W)[1]
            df = X - p["mq"][k]
            out[:, k] = .5 * eld - .5 * (d * np.einsum("ti,ij,tj->t", df, W, df) + nf / p["bq"][k])
        return out
    return lpi, lA, elog


def vb_update(p, X, start, trans, G, params):
    q = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in p.items()}
    X = np.asarray(X); nc, nf, ct = p["nc"], p["nf"], p["ct"]
    if "s" in params: q["piq"] = p["pi0"] + start
    if "t" in params: q["Aq"] = p["A0"] + trans
    q["pi"] = q["piq"] / q["piq"].sum(); q["A"] = q["Aq"] / q["Aq"].sum(1)[:, None]
    if p["fam"] == "vcat":
        if "e" in params:
            c = np.zeros((nc, nf))
            for t, x in enumerate(X[:, 0]): c[:, int(x)] += G[t]
            q["Bq"] = p["B0"] + c
        q["B"] = q["Bq"] / q["Bq"].sum(1)[:, None]
        return q
    N = G.sum(0)
    if "m" in params:
        q["bq"] = p["b0"] + N; q["mq"] = (p["b0"][:, None] * p["m0"] + G.T @ X) / q["bq"][:, None]
    if "c" in params:
        Sc = np.einsum("tk,ti,tj->kij", G, X, X) + np.einsum("k,ki,kj->kij", p["b0"], p["m0"], p["m0"]) - np.einsum("k,ki,kj->kij", q["bq"], q["mq"], q["mq"])
        if ct == "full": q["dq"] = p["d0"] + N; q["Sq"] = p["S0"] + Sc
        elif ct == "tied": q["dq"] = p["d0"] + N.sum(); q["Sq"] = p["S0"] + Sc.sum(0)
        elif ct == "diag": q["dq"] = p["d0"] + N; q["Sq"] = p["S0"] + np.einsum("kii->ki", Sc)
        else: q["dq"] = p["d0"] + N; q["Sq"] = p["S0"] + np.einsum("kii->k", Sc) / nf
        q["cov"] = q["Sq"] / (q["dq"] if ct == "tied" else np.asarray(q["dq"]).reshape((-1,) + (1,) * (q["Sq"].ndim - 1)))
    q["mu"] = q["mq"]
    return q


def kl_dir(q, p):
    return gammaln(q.sum()) - gammaln(p.sum()) - (gammaln(q) - gammaln(p)).sum() + ((q - p) * (digamma(q) - digamma(q.sum()))).sum()


def kl_mvn(mq, Sq, mp, Sp):
    P = np.linalg.inv(Sp); d = np.asarray(mq) - np.asarray(mp)
    return .5 * (np.linalg.slogdet(Sp)[1] - np.linalg.slogdet(Sq)[1] + np.trace(P @ Sq) + d @ P @ d - len(d))


def kl_wish(dq, Sq, dp, Sp):
    """Wishart(R | dof, scale matrix inv(S)) with density prop. to |R|^((dof-D-1)/2) exp(-tr(S R)/2)."""
    D = Sq.shape[0]
    el = sum(digamma((dq - i) / 2) for i in range(D)) + D * math.log(2) - np.linalg.slogdet(Sq)[1]

    def logc(d, S):  # log normaliser
        return d * D / 2 * math.log(2) - d / 2 * np.linalg.slogdet(S)[1] + D * (D - 1) / 4 * math.log(math.pi) + sum(gammaln((d - i) / 2) for i in range(D))
    return (dq - dp) / 2 * el - dq / 2 * np.trace((Sq - Sp) @ np.linalg.inv(Sq)) - logc(dq, Sq) + logc(dp, Sp)


def elbo(p, logZ):
    b = logZ - kl_dir(p["piq"], p["pi0"]) - sum(kl_dir(p["Aq"][i], p["A0"][i]) for i in range(p["nc"]))
    if p["fam"] == "vcat": return b - sum(kl_dir(p["Bq"][i], p["B0"][i]) for i in range(p["nc"]))
    ct, nf = p["ct"], p["nf"]
    for k in range(p["nc"]):
        S = full_cov(ct, p["Sq"], k, nf); S0 = full_cov(ct, p["S0"], k, nf)
        d = p["dq"] if ct == "tied" else p["dq"][k]; d0 = p["d0"] if ct == "tied" else p["d0"][k]
        Pm = np.linalg.inv(S) * d; C = np.linalg.inv(Pm)
        b -= kl_mvn(p["mq"][k], C / p["bq"][k], p["m0"][k], C / p["b0"][k])
        if ct != "tied" or k == 0: b -= kl_wish(d, S, d0, S0)
    return b
