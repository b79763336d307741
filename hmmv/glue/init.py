"""Contracts of the initialisation (_needs_init, _init of every class): what is set, what is kept, validity of what is set, determinism."""
from .base import *
from .emissions import build, gauss, gmm, gmm_cov_shape, CTS
from .fit import instance, PUBLIC, ML, VB, resolved, claim, ast_stores
from .sampling import SEED
from .vb import psh

EPS = sym("EPS", "R", "pos")
VCOV = {"full": (N, D, D), "tied": (D, D), "diag": (N, D), "spherical": (N, D)}


def groups(cls, ct):
    """code -> [(attribute, shape, kind)]; kind: 'rows' (probability rows), 'nonneg', 'real', 'pos', 'cov'"""
    v = cls in VB
    if v:
        g = {"s": [("startprob_prior_", (N,), "pos"), ("startprob_posterior_", (N,), "nonneg")], "t": [("transmat_prior_", (N, N), "pos"), ("transmat_posterior_", (N, N), "nonneg")]}
        if "Cat" in cls: g["e"] = [("emissionprob_prior_", (N, D), "pos"), ("emissionprob_posterior_", (N, D), "nonneg")]
        else:
            dof = () if ct == "tied" else (N,)
            g["m"] = [("means_prior_", (N, D), "real"), ("means_posterior_", (N, D), "real"), ("beta_prior_", (N,), "pos"), ("beta_posterior_", (N,), "nonneg")]
            g["c"] = [("dof_prior_", dof, "pos"), ("dof_posterior_", dof, "nonneg"), ("scale_prior_", psh(ct), "real"), ("scale_posterior_", psh(ct), "real"), ("_covars_", VCOV[ct], "cov")]
        return g
    g = {"s": [("startprob_", (N,), "rows")], "t": [("transmat_", (N, N), "rows")]}
    if cls in ("CategoricalHMM", "MultinomialHMM"): g["e"] = [("emissionprob_", (N, D), "rows")]
    if cls == "PoissonHMM": g["l"] = [("lambdas_", (N, D), "nonneg")]
    if cls == "GaussianHMM": g["m"] = [("means_", (N, D), "real")]; g["c"] = [("_covars_", VCOV[ct], "cov")]
    if cls == "GMMHMM": g["w"] = [("weights_", (N, M), "rows")]; g["m"] = [("means_", (N, M, D), "real")]; g["c"] = [("covars_", gmm_cov_shape(ct), "cov")]
    return g


# ------------------------------------------------------------------ _needs_init
@task("initialisation predicate", "C12 C24")
def t_needs():
    def one(sel, isset, prop):
        def go():
            F = Fn(f"base._needs_init[{'selected' if sel else 'not selected'}, {'set' if isset else 'not set'}{', property' if prop else ''}]"); I = F.I
            m = I.call(F.cls("hmm", "GaussianHMM"), (), dict(n_components=N, init_params="mc" if sel else "st")); h = I.heap[m]
            nm = "covars_" if prop else "means_"
            if isset: h["_covars_" if prop else "means_"] = F.arr("par", N, D); h["n_features"] = D
            h0 = dict(h)
            def post(v):
                F.V.ob("initialise exactly the selected and the missing parameters", (v is True) == (sel or not isset) and v in (True, False), f"{v!r}")
                F.V.ob("the model is unchanged", all(I.heap[m].get(q) is a for q, a in h0.items()) and set(I.heap[m]) == set(h0))
            F.run(lambda: I.call(I.getattr(m, "_needs_init"), ("c" if prop else "m", nm)), post); return F.done()
        return go
    return run_all("initialisation predicate", *[one(a, b, p) for a in (True, False) for b in (True, False) for p in (False, True)])


# ------------------------------------------------------------------ _init
def fill(F, m, cls, ct, codes):
    h = F.I.heap[m]
    for c in codes:
        for a, sh, kind in groups(cls, ct)[c]: h[a] = F.arr("old_" + a, *sh, kind="pos") if sh else 7


def show_(t, ctx): return nf.skey(canon(t, ctx) if t.sort != "B" else nf.cbool(t, Ctx(BASE)))


def lam_of(I, a, content=None):
    if content is not None: I.heap[a.cell] = content
    vs = [fresh("l") for _ in a.shape]; e = nt(I.at(a, tuple(vs))); return lam(vs, a.shape, e) if vs else e


def means_hook(F, m, X):
    """GMMHMM: the loop over the states appends one (n_mix, n_features) block per state; its results stand for it (INITM), compared between runs through F.sig"""
    I = F.I; F.g = I.new(Obj("ghost"), {"sig": None})
    def hook(I, s, it, run, fr):
        if num(it.n) is not N or not isinstance(I.heap[fr].get("means"), ListV): return False
        I.branch(eq(D, 1)); lst = I.heap[fr]["means"]; base = I.snap(); ctx0 = I.ctx; k = sym("LABEL", "I"); start = I.heap[lst]
        rngs = [v for v in I.heap[fr].values() if isinstance(v, Obj) and v.cls == "RandomState"]
        F.V.ob("the list of means starts empty", start == ())
        cv0 = I.heap[fr].get("cv"); late = None; sig = []; pos = sym("RPOS", "I")
        for phase in ("first", "later"):
            if phase == "later" and late is None: break
            I.restore(base); I.ctx = ctx0.extend(le(0, k), lt(k, N)); I.heap[lst] = ()
            for g in rngs: I.setk(g, "pos", pos)
            if phase == "later": I.heap[late[0].cell] = late[1]; I.setk(fr, "cv", late[0])
            for x in ast_stores(s):
                if x in I.heap[fr] and x != "cv": I.heap[fr][x] = Poison(f"{x} of an earlier iteration")
            wl = I.wlog; I.wlog.append({})
            outs = I.explore(lambda: run(it.item(k))); w = I.wlog.pop()
            for cond, kind, val, heap, ctx in outs:
                I.heap = {h: (dict(x) if isinstance(x, dict) else x) for h, x in heap.items()}; I.ctx = ctx
                if kind != "ok": F.V.ob("an iteration ends normally", False, f"{kind} {val!r}"); continue
                c = I.heap[lst]; ok = isinstance(c, tuple) and len(c) == 1 and isinstance(c[0], Arr) and c[0].ndim == 2 and I.deq(c[0].shape[0], M) and I.deq(c[0].shape[1], D)
                F.V.ob("one block of means per state", ok, f"{c!r}")
                cv = I.heap[fr].get("cv")
                if cv is not None and late is not None: F.V.ob("the covariance computed on demand is the same in every iteration", isinstance(cv, Arr) and cv.shape == late[0].shape and canon(lam_of(I, cv), ctx) is canon(lam_of(I, late[0], late[1]), ctx))
                if cv is not None and late is None: late = cv, I.heap[cv.cell]
                if ok: i, d = fresh("l"), fresh("l"); sig.append((show_(cond, ctx), show_(lam((i, d), (M, D), nt(I.at(c[0], (i, d)))), ctx)))
            for h, key in w:
                if h not in base: continue
                F.V.ob("an iteration changes only its own variables", h is fr and (key in ast_stores(s)) or h is lst or h in rngs, f"{h!r} {key}")
        I.restore(base); I.ctx = ctx0
        old = I.heap[F.g]["sig"]; sig = tuple(sorted(map(str, sig)))
        if old is None: I.setk(F.g, "sig", sig)
        else: F.V.ob("same seed, same data, same blocks of means", old == sig)
        for x in ast_stores(s):
            if x != "cv": I.setk(fr, x, Poison(f"{x} of the last iteration"))
        if late is not None and cv0 is None and I.branch(app("SMALLCLUSTER", F.tag, sort="B")):
            I.heap[late[0].cell] = late[1]; I.setk(fr, "cv", late[0])
        for g in rngs: I.setk(g, "pos", pos)
        j = fresh("j"); I.heap[lst] = Seq([("many", N, j, I.arr((M, D), lambda i, d: app("INITM", j, i, d)))])
        return True
    I.loop_hook = hook; F.tag = sym("TAG", "I")


def nonneg(F, name, e):
    if nf.sign(canon(e, F.I.ctx), F.I.ctx) in (1, 2, 3): F.V.ob(name, True)
    else: F.V.truth(F.I, name, le(0, e))


def no_count(F, mod, cls):
    """the parameter counts (contract: task 'parameter counts') only serve a warning here"""
    f = F.cls(mod, cls).lookup("_get_n_fit_scalars_per_param"); F.I.contracts[f.qual] = lambda I, s: None


def t_init(mod, cls, ct):
    G = groups(cls, ct); codes = "".join(G)
    def one(tag, sel, have, check):
        def go():
            F = Fn(f"{mod}.{cls}._init[{ct + ' ' if ct else ''}{tag}]", [le(2, T_)], timeout=200); I = F.I
            rows_positive("DRAW_rand", D); nf.Rules.bounds["KMPRED"] = N; nf.Rules.bounds["KMLABEL"] = N; NONNEG.add("len")
            if not check: no_count(F, mod, cls)
            kw = dict(n_components=N, init_params=sel, random_state=SEED)
            if ct: kw["covariance_type"] = ct
            if cls in ("GaussianHMM", "GMMHMM"): kw["min_covar"] = EPS
            if cls == "MultinomialHMM": kw["n_trials"] = 5
            if cls == "GMMHMM": kw["n_mix"] = M; means_hook(F, None, None)
            def model():
                m = I.call(F.cls(mod, cls), (), dict(kw)); fill(F, m, cls, ct, have); return m
            m = model(); h = I.heap[m]; m2 = model()
            def feats(I, s, X_):
                F.V.ob("the data are checked", s in (m, m2) and X_ is X); I.setk(s, "n_features", D); return None
            I.contracts[resolved(F, m, "_check_and_set_n_features")] = feats
            dt = "i" if cls in ("CategoricalHMM", "MultinomialHMM", "PoissonHMM", "VariationalCategoricalHMM") else "f"
            X = F.arr("X", T_, D, dtype=dt, kind="nonneg" if dt == "i" else "real"); L = I.new(ListV(), history_(I))
            before = {k: (dict(v) if isinstance(v, dict) else v) for k, v in I.heap.items()}; h0 = before[m]
            if cls == "PoissonHMM": I.assume.append(None) if False else None
            def go2():
                I.call(I.getattr(m, "_init"), (X, L)); I.call(I.getattr(m2, "_init"), (X, L))
                mid = dict(I.heap[m])
                return mid
            chosen = [c for c in codes if c in sel or c not in have]
            def post(mid):
                new = {a for c in chosen for a, _, _ in G[c]}
                priors = {"weights_prior", "means_prior", "means_weight", "covars_prior", "covars_weight"} if cls == "GMMHMM" else set()
                hh = I.heap[m]
                for c in codes:
                    for a, sh, kind in G[c]:
                        v = hh.get(a)
                        if c not in chosen:
                            F.V.ob(f"{a}: not selected and already set, kept", v is h0[a] and (not isinstance(v, Arr) or I.heap[v.cell] == before[v.cell] or I.heap[v.cell][1] is before[v.cell][1])); continue
                        if v is None: F.V.ob(f"{a} is set", False); continue
                        if sh == (): F.V.ob(f"{a} is a number", npm.isscal(npm.sc(I, v)) and not isinstance(v, Arr) or isinstance(v, Arr) and v.ndim == 0); continue
                        ok = isinstance(v, Arr) and v.ndim == len(sh) and all(I.deq(x, y) for x, y in zip(v.shape, sh)); F.V.ob(f"{a} has its shape", ok, f"{getattr(v, 'shape', v)!r}")
                        if not ok: continue
                        F.V.ob(f"{a} is a new array", not isinstance(h0.get(a), Arr) or v.cell is not h0[a].cell)
                        vs = [fresh("i") for _ in sh]; c0 = I.ctx; I.ctx = c0.extend(*[x for v_, n in zip(vs, sh) for x in (le(0, v_), lt(v_, n))]); e = nt(I.at(v, tuple(vs)))
                        if kind in ("rows", "nonneg", "pos"): nonneg(F, f"{a} has no negative entry", e)
                        if kind == "rows": q = fresh("b"); F.same(f"the rows of {a} add up to one", ssum(q, sh[-1], nt(I.at(v, tuple(vs[:-1]) + (q,)))), ONE)
                        I.ctx = c0
                        w = I.heap[m2].get(a); F.same(f"{a}: same seed, same data, same result", w, F.spec(v.shape, lambda *ix: I.at(v, ix), v.dtype))
                        F.V.ob(f"{a} does not depend on other models", isinstance(w, Arr) and w.cell is not v.cell)
                for k in set(hh) | set(h0):
                    if k in new or k == "n_features" or k in priors: continue
                    F.V.ob(f"{k} untouched", k in hh and k in h0 and (hh[k] is h0[k] or hh[k] == h0[k]), f"{hh.get(k)!r} against {h0.get(k)!r}")
                F.V.ob("nothing is drawn from the global generator", "rng.global" not in I.effects)
                F.V.ob("the random state of the model is not replaced", hh.get("random_state") is SEED)
                F.frame("data", X, before=before)
                if check:
                    try: I.call(I.getattr(m, "_check"), ())
                    except PyExc as e: F.V.ob("what has been initialised passes the validation", False, f"{e.name}"); return
                    F.V.ob("what has been initialised passes the validation", True)
            F.run(go2, post)
            return F.done()
        return go
    out = [one("all, nothing set", codes, "", True), one("all, everything set", codes, codes, True), one("none, nothing set", "", "", True), one("none, everything set", "", codes, False)]
    for c in codes: out += [one(f"only {c} selected", c, codes, False), one(f"only {c} missing", "", codes.replace(c, ""), False)]
    return run_all(f"{cls} initialisation", *out)


def history_(I):
    j = fresh("j"); return Seq([("many", S, j, app("len", j, sort="I"))])


for mo, c in PUBLIC:
    for ct in (CTS if "Gau" in c or "GMM" in c else (None,)):
        task(f"initialisation {c}{' ' + ct if ct else ''}", "C12 C24 C25 C16" + (" C10" if c in ML else " C20"))(lambda mo=mo, c=c, ct=ct: t_init(mo, c, ct))
