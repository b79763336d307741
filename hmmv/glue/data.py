"""Contracts of the training data validation (_check_and_set_n_features) and of fit's rejections; validation of the variational posteriors."""
from .base import *
from .emissions import build, CTS
from .fit import instance, PUBLIC, ML, VB, resolved, claim
from .valid import gate, DIMS, N2, N3, N4, D2, D3, M2, M3
from .vb import vmodel, psh

E_ = sym("E", "I", "pos")                 # number of columns of the data
K_ = sym("K", "I")                        # a given alphabet size / number of trials
EF = DIMS + [le(1, E_)]


def bare(F, mod, cls, ct=None, **kw):
    """an instance as made by the constructor: no parameters yet"""
    I = F.I; m = I.call(F.cls(mod, cls), (), dict(n_components=N, **({"covariance_type": ct} if ct else {}), **kw)); return m


def only(F, m, h0, allowed):
    """no attribute but the allowed ones is added, removed or replaced"""
    h = F.I.heap[m]
    for k in set(h) | set(h0):
        if k not in allowed: F.V.ob(f"{k} untouched", k in h and k in h0 and (h[k] is h0[k] or h[k] == h0[k]), f"{h.get(k)!r} against {h0.get(k)!r}")


def ints(x, f):
    t, d = fresh("b"), fresh("b"); return binder("forall", t, T_, binder("forall", d, E_, f(app("X", t, d, sort="I"))))


@task("training data validation", "C27 C24 C12")
def t_data():
    def base(mod, cls, state, ct=None):
        """the number of columns agrees with the model's, or becomes the model's"""
        def go():
            F = Fn(f"base._check_and_set_n_features[{cls}{' ' + ct if ct else ''} n_features {state}]", EF); I = F.I; m = bare(F, mod, cls, ct); h = I.heap[m]; X = F.arr("X", T_, E_)
            if state == "set": h["n_features"] = D
            h0 = dict(h)
            def more(v):
                F.V.ob("the number of features is recorded", "n_features" in I.heap[m])
                F.same("the number of features is that of the data", num_(I.heap[m].get("n_features")), E_); only(F, m, h0, {"n_features"})
            return gate(F, lambda: I.call(I.getattr(m, "_check_and_set_n_features"), (X,)), [("the data have as many columns as the model has features", eq(E_, D))] if state == "set" else [], [X], more)
        return go
    def cat(mod, cls, state, dt):
        def go():
            F = Fn(f"_emissions.BaseCategoricalHMM._check_and_set_n_features[{cls} n_features {state} {'integers' if dt == 'i' else 'reals'}]", EF); I = F.I; m = bare(F, mod, cls); h = I.heap[m]; X = F.arr("X", T_, E_, dtype=dt)
            if state == "set": h["n_features"] = K_; I.ctx = I.ctx.extend(le(1, K_)); F.V.facts = F.V.facts + [le(1, K_)]
            h0 = dict(h); c = [("no symbol is negative", ints("X", lambda x: le(0, x)))]
            if state == "set": c.append(("every symbol is below the alphabet size", ints("X", lambda x: lt(x, K_))))
            if dt != "i": c = [("the symbols are integers", FALSE)]
            def more(v):
                t, d = fresh("b"), fresh("b")
                F.same("alphabet size kept" if state == "set" else "alphabet size: largest symbol plus one", num_(I.heap[m].get("n_features")), K_ if state == "set" else add(smax(t, T_, smax(d, E_, app("X", t, d, sort="I"))), 1)); only(F, m, h0, {"n_features"})
            return gate(F, lambda: I.call(I.getattr(m, "_check_and_set_n_features"), (X,)), c, [X], more, open_x=False)
        return go
    def mult(feat, trials, dt):
        def go():
            F = Fn(f"_emissions.BaseMultinomialHMM._check_and_set_n_features[n_features {feat}, n_trials {trials}, {'integers' if dt == 'i' else 'reals'}]", EF); I = F.I; m = bare(F, "hmm", "MultinomialHMM"); h = I.heap[m]; X = F.arr("X", T_, E_, dtype=dt)
            if feat == "set": h["n_features"] = D
            if trials == "one": h["n_trials"] = K_
            if trials == "per row": h["n_trials"] = F.arr("nt", T_, dtype="i")
            h0 = dict(h); t, d = fresh("b"), fresh("b"); tot = lambda t: ssum(d, E_, app("X", t, d, sort="I")); c = []
            if feat == "set": c.append(("the data have as many columns as the model has features", eq(E_, D)))
            if dt == "i":
                c.append(("no count is negative", ints("X", lambda x: le(0, x))))
                if trials != "unset": c.append(("every row adds up to the number of trials", binder("forall", t, T_, eq(tot(t), K_ if trials == "one" else app("nt", t, sort="I")))))
            else: c = [("the counts are integers", FALSE)]
            def more(v):
                n = I.heap[m].get("n_trials")
                if trials == "unset": F.same("numbers of trials: the row totals", n, F.spec((T_,), tot, "i"))
                else: F.V.ob("the number of trials is kept", n is h0["n_trials"])
                F.same("the number of features is that of the data", num_(I.heap[m].get("n_features")), E_); only(F, m, h0, {"n_features", "n_trials"})
            return gate(F, lambda: I.call(I.getattr(m, "_check_and_set_n_features"), (X,)), c, [X], more, open_x=False)
        return go
    return run_all("training data validation", *[base(mo, c, s) for mo, c in (("hmm", "GaussianHMM"), ("hmm", "GMMHMM"), ("hmm", "PoissonHMM"), ("vhmm", "VariationalGaussianHMM")) for s in ("set", "unset")],
                   *[cat(mo, c, s, dt) for mo, c in (("hmm", "CategoricalHMM"), ("vhmm", "VariationalCategoricalHMM")) for s, dt in (("set", "i"), ("unset", "i"), ("set", "f"))],
                   *[mult(a, b, dt) for a in ("set", "unset") for b in ("one", "per row", "unset") for dt in ("i",)], mult("unset", "one", "f"), mult("unset", "unset", "f"))


@task("rejection before any change", "C27 C24 C25 C13")
def t_reject():
    """when the data validation raises, fit raises and nothing has been changed or drawn"""
    def one(mod, cls, ct, fitted, lens):
        def go():
            F = Fn(f"base.fit[invalid data, {cls}{' ' + ct if ct else ''}{' fitted' if fitted else ''}{' lengths' if lens else ''}]", EF); I = F.I
            m = instance(F, mod, cls, ct) if fitted else bare(F, mod, cls, ct); I.heap[m]["random_state"] = sym("SEED", "I", "nonneg"); X = F.arr("X", T_, D, dtype="f"); L = F.arr("len", S, dtype="i") if lens else None
            seen = []
            def chk(I, s, X_):
                seen.append(s is m and isinstance(X_, Arr) and X_.cell is X.cell and X_.shape == X.shape); raise PyExc("ValueError", ("invalid data",))
            I.contracts[resolved(F, m, "_check_and_set_n_features")] = chk
            before = {k: (dict(v) if isinstance(v, dict) else v) for k, v in I.heap.items()}; h0 = before[m]
            def exc(e, c):
                F.V.ob("the data are checked", bool(seen) and all(seen)); F.V.ob("the rejection reaches the caller", e.name == "ValueError", e.name)
                only(F, m, h0, set()); F.frame("parameter", X, *[a for a in h0.values() if isinstance(a, Arr)], before=before)
                F.V.ob("nothing is drawn from the global generator", "rng.global" not in I.effects)
            F.run(lambda: I.call(I.getattr(m, "fit"), (X, L)), lambda v: F.V.ob("invalid data are rejected", False), exc)
            F.V.out = [o for o in F.V.out if "returns normally" not in o["name"]]; return F.done()
        return go
    L = [(mo, c, ct) for mo, c in PUBLIC for ct in ((None,) if "Gau" not in c and "GMM" not in c else ("full", "diag"))]
    return run_all("rejection before any change", *[one(mo, c, ct, f, l) for mo, c, ct in L for f, l in ((False, True), (True, False))])


# ------------------------------------------------------------------ variational models
@task("variational validation", "C17 C12 C20")
def t_vcheck():
    W = [sym(f"W{i}", "I", "pos") for i in range(4)]; WF = [le(1, w) for w in W]
    def one(fam, attr, want, got=None, tag=""):
        """all parameters have their shapes but attr, of arbitrary extents (got: another rank)"""
        def go():
            F = Fn(f"{'base.VariationalBaseHMM' if fam == 'base' else 'vhmm.VariationalCategoricalHMM' if fam == 'categorical' else 'vhmm.VariationalGaussianHMM'}._check[{fam} {attr}{tag}]", WF); I = F.I; m = vmodel(F, fam); h = I.heap[m]
            for a in h.values():
                if isinstance(a, Arr): a.cell.isfloat = False
            sh = tuple(W[:len(want)]) if got is None else got
            if attr: h[attr] = F.arr("any", *sh)
            conds = [(f"axis {i} has the right extent", eq(a, b)) for i, (a, b) in enumerate(zip(sh, want))] if len(sh) == len(want) else [("it has the right number of axes", FALSE)]
            if fam == "categorical" and attr.startswith("emissionprob"): pass
            h0 = dict(h); arrs = [a for k, a in h0.items() if isinstance(a, Arr) and k.endswith(("prior_", "posterior_"))]
            def more(v):
                for k, a in h0.items():
                    if isinstance(a, Arr) and k.endswith(("prior_", "posterior_")):
                        b = I.heap[m].get(k); ok = isinstance(b, Arr) and b.ndim == a.ndim; F.V.ob(f"{k} keeps its shape", ok)
                        if ok and fam in CTS and not k.startswith(("startprob", "transmat")): F.V.ob(f"{k} is of a float type", not getattr(b.cell, "anytype", False))
                        if ok: F.same(f"{k} keeps its values", b, F.spec(a.shape, lambda *ix: I.at(a, ix)))
                only(F, m, h0, {k for k in h0 if k.endswith(("prior_", "posterior_"))})
            return gate(F, lambda: I.call(I.getattr(m, "_check"), ()), conds, arrs, more)
        return go
    def bad():
        F = Fn("vhmm.VariationalGaussianHMM._check[unknown covariance type]"); I = F.I; m = vmodel(F, "full"); I.heap[m]["covariance_type"] = "bad"
        return gate(F, lambda: I.call(I.getattr(m, "_check"), ()), [("the covariance type is known", FALSE)])
    def scalars(attr):
        def go():
            F = Fn(f"vhmm.VariationalGaussianHMM._check[tied {attr} not a number]"); I = F.I; m = vmodel(F, "tied"); I.heap[m][attr] = F.arr("any", N)
            return gate(F, lambda: I.call(I.getattr(m, "_check"), ()), [("it is a number", FALSE)])
        return go
    out = []
    for fam in ("base", "categorical") + tuple(CTS):
        for k in ("prior_", "posterior_"): out += [one(fam, "startprob_" + k, (N,)), one(fam, "transmat_" + k, (N, N)), one(fam, "transmat_" + k, (N, N), (N,), " rank 1")]
    for k in ("prior_", "posterior_"): out.append(one("categorical", "emissionprob_" + k, (N, D)))
    for ct in CTS:
        out.append(one(ct, "", ()))
        for k in ("prior_", "posterior_"):
            out += [one(ct, "means_" + k, (N, D)), one(ct, "beta_" + k, (N,)), one(ct, "scale_" + k, psh(ct))]
            if ct != "tied": out.append(one(ct, "dof_" + k, (N,)))
            out.append(one(ct, "scale_" + k, psh(ct), psh(ct) + (D,), " wrong rank"))
    return run_all("variational validation", *out, bad, scalars("dof_prior_"), scalars("dof_posterior_"))
