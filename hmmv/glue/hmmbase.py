"""Contracts of base.py: scoring, posteriors, decoding, E-step, for an abstract emission model.

The emission enters through its contract only: the likelihood of frame x in state j is EM(x, j) >= 0 (a function of
that row and the model), its log form is LogV(EM).  The data set is S sequences of lengths len(s), stored one after
the other in X: sequence s occupies rows off(s) .. off(s) + len(s) - 1 with off(s) = sum of the preceding lengths."""
from .base import *
from .lemmas import enable, positive_likelihood

NONNEG.add("EM")


def length(s): return app("len", s, sort="I")
def off(s):
    u = fresh("b"); return ssum(u, s, length(u))


def row(r, cols=D):
    d = fresh("l"); return lam((d,), (num(cols),), app("X", r, d))


def em(r, j, cols=D): return app("EM", row(r, cols), j)


class Seqs:
    """the data set: S sequences ('multi'), or one sequence of T rows ('one': lengths=None)"""
    def __init__(self, F, mode="multi"):
        self.F = F; self.mode = mode; self.cols = D; I = F.I
        if mode == "multi":
            w = fresh("b"); s = fresh("q")
            self.total = ssum(w, S, length(w))
            I.ctx = I.ctx.extend(binder("forall", s, S, le(1, length(s))), le(1, self.total))
            self.X = F.arr("X", self.total, D); self.L = F.arr("len", S, dtype="i"); self.n = S; self.len = length; self.off = off
        else:
            self.total = T_; self.X = F.arr("X", T_, D); self.L = None; self.n = ONE; self.len = lambda s: T_; self.off = lambda s: ZERO
        I.contracts["hmmlearn._utils.split_X_lengths"] = self.split

    def split(self, I, X, lengths):
        """contract proved in glue/small.py"""
        if lengths is None: return I.new(ListV(), (X,))
        k = fresh("s"); c0 = I.ctx
        return I.new(ListV(), Seq([("many", S, k, I.rows(X, off(k), add(off(k), length(k))))]))

    def B(self, s, em=em):
        """emission table of sequence s"""
        t, j = fresh("l"), fresh("l")
        return lam((t, j), (self.len(s), N), em(add(self.off(s), t), j, self.cols))

    def ssum(self, f):
        if self.mode != "multi": return f(ZERO)
        s = fresh("b"); return ssum(s, S, f(s))


def util_contracts(F):
    """contracts of utils.normalize and utils.log_normalize (proved in glue/small.py)"""
    def normalize(I, a, axis=None):
        ax = 0 if axis is None else axis % a.ndim
        if axis is None and a.ndim != 1: return NotImplemented
        old = I.copy(a)
        for ix in [tuple(fresh("x") for _ in a.shape)]:      # precondition: no negative entry
            c = I.ctx.extend(*[c for v, d in zip(ix, a.shape) for c in (le(0, v), lt(v, num(d)))]); v = tm(I.at(a, ix))
            if nf.sign(v, c) not in (1, 2, 3) and nf.sign(canon_(v, c), c) not in (1, 2, 3): return NotImplemented
        def g(*ix):
            w = fresh("b"); full = list(ix); full[ax] = w
            s = ssum(w, num(a.shape[ax]), tm(I.at(old, full)))
            return div(tm(I.at(old, ix)), ite(eq(s, 0), ONE, s))
        if a.ndim == 1:          # precondition: the sum is positive
            w = fresh("b"); I.oblig(f"{F.name}: precondition of utils.normalize on a vector (its sum is positive)", pos(ssum(w, num(a.shape[0]), tm(I.at(old, (w,)))), I.ctx), kind="pre")
        I.store(a, I.arr(a.shape, g)); return None
    def log_normalize(I, a, axis=None):
        if axis is None or a.ndim != 2 or axis % 2 != 1: return NotImplemented
        old = I.copy(a); w = fresh("b"); r = fresh("x")
        s = lambda i: ssum(w, num(a.shape[1]), lg(I.at(old, (i, w))).e)
        c0 = I.ctx; I.ctx = c0.extend(le(0, r), lt(r, num(a.shape[0]))); I.oblig(f"{F.name}: precondition of utils.log_normalize (a finite entry in every row)", pos(s(r), I.ctx), kind="pre"); I.ctx = c0
        I.store(a, I.arr(a.shape, lambda i, j: LogV(div(lg(I.at(old, (i, j))).e, s(i))))); return None
    F.I.contracts["hmmlearn.utils.normalize"] = normalize; F.I.contracts["hmmlearn.utils.log_normalize"] = log_normalize


def canon_(t, ctx):
    try: return canon(t, ctx)
    except nf.Limit: return t


def emission(F, log_=True, name="EM"):
    """contract of the emission methods"""
    def ll(I, self_, X):
        X = I.asarr(X)
        return I.arr((X.shape[0], N), lambda t, j: LogV(app(name, npm.vec(I, X, (t,)), j)))
    def l(I, self_, X):
        X = I.asarr(X)
        return I.arr((X.shape[0], N), lambda t, j: app(name, npm.vec(I, X, (t,)), j))
    return ll, l


def model(F, cls="BaseHMM", impl="log", possible=True, **kw):
    """a fitted abstract model; every sequence has positive probability unless possible=False"""
    I = F.I
    sp = F.arr("startprob", N, kind="nonneg"); tm_ = F.arr("transmat", N, N, kind="nonneg")
    m = F.obj(F.cls("base", cls), n_components=N, startprob_=sp, transmat_=tm_, implementation=impl, algorithm="viterbi", n_features=D, params="stmc", init_params="stmc", random_state=sym("SEED", "I", "nonneg"), **kw)
    ll, l = emission(F)
    I.contracts["hmmlearn.base._AbstractHMM._compute_log_likelihood"] = ll
    I.contracts["hmmlearn.base._AbstractHMM._compute_likelihood"] = l
    I.contracts["hmmlearn.base.%s._check" % cls] = lambda I, s: None
    if possible: positive_likelihood("startprob")
    enable(); util_contracts(F)
    return m


def PA(): return kernels.L("startprob", N), kernels.L("transmat", N, N)


def spec_Z(Q, s):
    P, A = PA(); return spec.Z(P, A, Q.B(s), sub(Q.len(s), 1))


def gamma(Q, s, t, j):
    """posterior probability of state j at frame t of sequence s"""
    P, A = PA(); B = Q.B(s)
    return div(mul(spec.FWD(P, A, B, t, j), spec.BWD(A, B, t, j)), spec.Z(P, A, B, sub(Q.len(s), 1)))


def xi(Q, s, t, i, j):
    """posterior probability of the transition i -> j after frame t of sequence s"""
    P, A = PA(); B = Q.B(s)
    return div(mul(spec.FWD(P, A, B, t, i), lam_at(A, i, j), lam_at(B, add(t, 1), j), spec.BWD(A, B, add(t, 1), j)), spec.Z(P, A, B, sub(Q.len(s), 1)))


def cat(F, Q, name, v, shape, f, dtype="f"):
    """v is the concatenation over the sequences, in order, of arrays with entries f(s, t, ...) """
    I = F.I
    if Q.mode != "multi": return F.same(name, v, F.spec((T_,) + shape, lambda t, *ix: f(ZERO, t, *ix), dtype))
    c = getattr(I, "cats", {}).get(v.cell) if isinstance(v, Arr) and I.whole(v) else None
    if c is None: return F.V.ob(name + ": one block of rows per sequence, in order", False, f"{v!r}")
    n, k, a = c; c0 = I.ctx
    s = fresh("s"); I.ctx = c0.extend(le(0, s), lt(s, S), *inst(I, s))
    try:
        F.same(name + ": one block of rows per sequence, in order", num(n), S)
        return F.same(name, I.vsub(a, {k: s}), F.spec((Q.len(s),) + shape, lambda t, *ix: f(s, t, *ix), dtype))
    finally: I.ctx = c0


def inst(I, s): return [le(1, length(s))]


MODES = ("multi", "one")


@task("base.score", "C01 C02 C04 C05 C13 C18 C24")
def t_score():
    def one(impl, post_, mode):
        def go():
            F = Fn(f"base._score_{impl}[posteriors={post_} {mode}]"); I = F.I; m = model(F, impl=impl); Q = Seqs(F, mode)
            before = dict(I.heap)
            def post(v):
                if not (isinstance(v, tuple) and len(v) == 2): return F.V.ob("returns a pair", False)
                F.same("log likelihood = sum over sequences of the log marginal likelihood", v[0], Q.ssum(lambda s: log(spec_Z(Q, s))))
                if post_: cat(F, Q, "posteriors of every frame given its whole sequence", v[1], (N,), lambda s, t, j: gamma(Q, s, t, j))
                F.frame("data", Q.X, before=before); F.frame("model", I.heap[m]["startprob_"], I.heap[m]["transmat_"], before=before)
            F.run(lambda: I.call(I.getattr(m, "_score"), (Q.X, Q.L), {"compute_posteriors": post_}), post)
            return F.done()
        return go
    def zero(mode):
        """sequences of probability zero included: their log likelihood is minus infinity"""
        def go():
            F = Fn(f"base._score_log[any data {mode}]"); I = F.I; m = model(F, possible=False); Q = Seqs(F, mode)
            def post(v):
                if not (isinstance(v, tuple) and len(v) == 2): return F.V.ob("returns a pair", False)
                F.same("log likelihood = sum over sequences of the log marginal likelihood, -inf where it is zero", v[0], Q.ssum(lambda s: log(spec_Z(Q, s))))
            F.run(lambda: I.call(I.getattr(m, "_score"), (Q.X, Q.L), {"compute_posteriors": False}), post)
            return F.done()
        return go
    return run_all("base._score", *[one(i, p, mo) for i in ("log", "scaling") for p in (True, False) for mo in MODES], *[zero(mo) for mo in MODES])


@task("base.score_entry_points", "C01 C02 C04 C05 C13 C17")
def t_entry():
    """score, score_samples, predict_proba hand over the result of _score of the selected implementation"""
    def one(meth, impl):
        def go():
            F = Fn(f"base.{meth}[{impl}]"); I = F.I; m = model(F, impl=impl); Q = Seqs(F); checked = []
            I.contracts["hmmlearn.base.BaseHMM._check"] = lambda I, s: checked.append(1)
            def sc(which):
                def f(I, self_, X=None, lengths=None, compute_posteriors=None):
                    return (LogV_sum(which), F.arr("POST_" + which + ("1" if compute_posteriors else "0"), Q.total, N)) if True else None
                return f
            def LogV_sum(which): return app("SCORE_" + which, ZERO)
            I.contracts["hmmlearn.base._AbstractHMM._score_log"] = sc("log"); I.contracts["hmmlearn.base._AbstractHMM._score_scaling"] = sc("scaling")
            def post(v):
                F.V.ob("parameters are checked first", len(checked) > 0)
                if meth == "score": F.same("value of _score", v, app("SCORE_" + impl, ZERO))
                elif meth == "predict_proba": F.same("posteriors of _score", v, F.spec((Q.total, N), lambda t, j: app("POST_" + impl + "1", t, j)))
                else: F.same("result of _score", v, (app("SCORE_" + impl, ZERO), F.spec((Q.total, N), lambda t, j: app("POST_" + impl + "1", t, j))))
            F.run(lambda: I.call(I.getattr(m, meth), (Q.X, Q.L)), post)
            return F.done()
        return go
    def bad(meth):
        def go():
            F = Fn(f"base.{meth}[unknown implementation]"); I = F.I; m = model(F, impl="other"); Q = Seqs(F)
            F.run(lambda: I.call(I.getattr(m, meth), (Q.X, Q.L)), None, lambda e, c: F.V.ob("an unknown implementation name raises", True))
            F.V.ob("an unknown implementation name never returns", not any("returns normally" in o["name"] and False for o in F.V.out))
            return F.done()
        return go
    def unfitted(meth):
        def go():
            F = Fn(f"base.{meth}[unfitted]"); I = F.I; m = model(F); Q = Seqs(F); I.heap[m].pop("startprob_")
            F.run(lambda: I.call(I.getattr(m, meth), (Q.X, Q.L)), lambda v: F.V.ob("a model without parameters raises", False), lambda e, c: F.V.ob("a model without parameters raises NotFittedError", e.name == "NotFittedError"))
            F.V.out = [o for o in F.V.out if "returns normally" not in o["name"]]; return F.done()
        return go
    return run_all("base.score_entry_points", *[one(me, i) for me in ("score", "score_samples", "predict_proba") for i in ("log", "scaling")], *[raises(me, "implementation", "other") for me in ("score", "_do_estep")], *[unfitted(me) for me in ("score", "decode", "predict")])


def raises(meth, attr, val):
    """with this configuration the method always raises"""
    def go():
        F = Fn(f"base.{meth}[{attr}={val!r}]"); I = F.I; m = model(F); I.heap[m][attr] = val; Q = Seqs(F)
        F.run(lambda: I.call(I.getattr(m, meth), (Q.X, Q.L)), lambda v: F.V.ob("an unknown name is rejected", False), lambda e, c: F.V.ob("an unknown name is rejected", True))
        F.V.out = [o for o in F.V.out if "returns normally" not in o["name"]]; return F.done()
    return go


@task("base.decode", "C03 C04 C13 C17 C24")
def t_decode():
    def one(default, arg, mode, impl="log"):
        alg = arg or default
        def go():
            F = Fn(f"base.decode[model {default}, call {arg}, {mode} {impl if alg == 'map' else ''}]"); I = F.I; m = model(F, impl=impl); I.heap[m]["algorithm"] = default; Q = Seqs(F, mode)
            before = dict(I.heap); P, A = PA(); Rules_bounds()
            def post(v):
                if not (isinstance(v, tuple) and len(v) == 2): return F.V.ob("returns a pair", False)
                j = fresh("b")
                if alg == "viterbi":
                    F.same("log probability = sum over sequences of the log of the best path's probability", v[0], Q.ssum(lambda s: log(smax(j, N, spec.VIT(P, A, Q.B(s), sub(Q.len(s), 1), j)))))
                    cat(F, Q, "states = best path of each sequence", v[1], (), lambda s, t: app("VPATH", P, A, Q.B(s), t, sort="I"), "i")
                else:
                    def score(s):
                        t = fresh("b"); return ssum(t, Q.len(s), smax(j, N, gamma(Q, s, t, j)))
                    F.same("score = sum of the largest posterior of every frame", v[0], Q.ssum(score))
                    cat(F, Q, "state of largest posterior at every frame", v[1], (), lambda s, t: binder("argf", j, N, gamma(Q, s, t, j)), "i")
                F.frame("data", Q.X, before=before); F.frame("model", I.heap[m]["startprob_"], I.heap[m]["transmat_"], before=before)
            F.run(lambda: I.call(I.getattr(m, "decode"), (Q.X, Q.L) + ((arg,) if arg else ())), post)
            return F.done()
        return go
    def pred(alg):
        def go():
            F = Fn(f"base.predict[{alg}]"); I = F.I; m = model(F); Q = Seqs(F); I.heap[m]["algorithm"] = alg
            def dec(I, s, X, lengths=None, algorithm=None):
                F.V.ob("decodes the given data", X is Q.X and lengths is Q.L)
                return (app("DLP", ZERO), F.arr("DSEQ_" + (algorithm or I.heap[s]["algorithm"]), Q.total, dtype="i"))
            I.contracts["hmmlearn.base._AbstractHMM.decode"] = dec
            F.run(lambda: I.call(I.getattr(m, "predict"), (Q.X, Q.L)), lambda v: F.same("states of decode", v, F.spec((Q.total,), lambda t: app("DSEQ_" + alg, t, sort="I"), "i")))
            return F.done()
        return go
    return run_all("base.decode", one("viterbi", None, "multi"), one("viterbi", None, "one"), one("map", None, "multi"), one("map", None, "one", "scaling"), one("map", "viterbi", "one"), one("viterbi", "map", "multi", "scaling"),
                   raises("decode", "algorithm", "other"), pred("viterbi"), pred("map"))


def Rules_bounds(): nf.Rules.bounds["VPATH"] = N


@task("base.estep", "C05 C06 C07 C08 C09 C12 C13 C20")
def t_estep():
    def one(impl, params, mode):
        def go():
            F = Fn(f"base._do_estep[{impl} params={params!r} {mode}]"); I = F.I; m = model(F, impl=impl); I.heap[m]["params"] = params; Q = Seqs(F, mode); before = dict(I.heap)
            def post(v):
                if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], DictV)): return F.V.ob("returns statistics and log likelihood", False)
                st = I.heap[v[0]]; t = fresh("b")
                F.same("log likelihood of the data", v[1], Q.ssum(lambda s: log(spec_Z(Q, s))))
                F.same("number of sequences", st["nobs"], Q.n)
                F.same("expected number of starts in each state" if "s" in params else "starts are not collected", st["start"], F.spec((N,), lambda i: Q.ssum(lambda s: gamma(Q, s, ZERO, i)) if "s" in params else ZERO))
                F.same("expected number of transitions" if "t" in params else "transitions are not collected", st["trans"], F.spec((N, N), lambda i, j: Q.ssum(lambda s: ssum(t, sub(Q.len(s), 1), xi(Q, s, t, i, j))) if "t" in params else ZERO))
                F.frame("data", Q.X, before=before); F.frame("model", I.heap[m]["startprob_"], I.heap[m]["transmat_"], before=before)
            F.run(lambda: I.call(I.getattr(m, "_do_estep"), (Q.X, Q.L)), post)
            return F.done()
        return go
    return run_all("base._do_estep", *[one(i, p, "multi") for i in ("log", "scaling") for p in ("st", "s", "t", "")], one("log", "stmc", "one"), one("scaling", "stmc", "one"))
