"""Contracts of _kl_divergence.py and _utils.logdet: closed forms of the divergences.

The closed forms are the integrals of log(q/p) q (stated independently of the code: log Gamma_D and log 2 written out);
their non-negativity is Gibbs' inequality, an assumed fact about the formula (lean/ proves the normal case)."""
from .base import *


def lga(x): return app("gammaln", x)
def dig(x): return app("digamma", x)
HALF = num(Fraction(1, 2))


def S1(n, f):
    v = fresh("b"); return ssum(v, n, f(v))


def Mx(f, d=D):
    r, c = fresh("l"), fresh("l"); return lam((r, c), (d, d), f(r, c))


def kl_dirichlet(q, p, n):
    """q, p: functions of the index"""
    sq, sp = S1(n, q), S1(n, p)
    return add(lga(sq), neg(lga(sp)), neg(S1(n, lambda i: sub(lga(q(i)), lga(p(i))))), S1(n, lambda i: mul(sub(q(i), p(i)), sub(dig(q(i)), dig(sq)))))


def kl_normal(mq, vq, mp, vp):
    return add(mul(HALF, sub(log(vp), log(vq))), mul(HALF, div(add(pw(sub(mq, mp), 2), vq), vp)), neg(HALF))


def kl_mvn(mq, Sq, mp, Sp, d=D):
    """m: function of i; S: function of (i, j)"""
    P = Mx(Sp, d)
    return mul(HALF, add(app("LOGDET", P), neg(app("LOGDET", Mx(Sq, d))), S1(d, lambda i: S1(d, lambda j: mul(app("INV", P, i, j), Sq(j, i)))),
                         S1(d, lambda i: S1(d, lambda j: mul(sub(mq(i), mp(i)), app("INV", P, i, j), sub(mq(j), mp(j))))), neg(d)))


def kl_gamma(bq, cq, bp, cp):
    """shape b, rate c"""
    return add(mul(sub(bq, bp), dig(bq)), neg(lga(bq)), lga(bp), mul(bp, sub(log(cq), log(cp))), mul(bq, div(sub(cp, cq), cq)))


def kl_wishart(nq, Sq, np_, Sp, d=D):
    """dof n, inverse scale matrix S: E log|L| = sum_i digamma((n - i)/2) + d log 2 - log|S|"""
    LQ, LP = app("LOGDET", Mx(Sq, d)), app("LOGDET", Mx(Sp, d)); Q = Mx(Sq, d)
    E = add(S1(d, lambda i: dig(div(sub(nq, i), 2))), mul(d, app("log", num(2))), neg(LQ))
    def logZ(n, L): return add(mul(HALF, n, d, app("log", num(2))), mul(-1, HALF, n, L), mul(num(Fraction(1, 4)), d, sub(d, 1), log(PI)), S1(d, lambda i: lga(div(sub(n, i), 2))))
    return add(mul(HALF, sub(nq, np_), E), mul(-1, HALF, d, nq), mul(HALF, nq, S1(d, lambda i: S1(d, lambda j: mul(Sp(i, j), app("INV", Q, j, i))))), logZ(np_, LP), neg(logZ(nq, LQ)))


PI = sym("PI", "R", "pos")


def gibbs(F, f):
    """assumed: the divergence is not negative"""
    c = nf.cbool(lt(f, 0), F.I.ctx)
    F.I.ctx = F.I.ctx.extend(not_(c))


@task("_kl_divergence", "C20 C21 C22")
def t_kl():
    def go(name, build, want, args, note=""):
        def f():
            F = Fn(f"_kl_divergence.{name}{note}"); I = F.I; fn = F.func("_kl_divergence", name)
            a = build(F); w = want(); before = dict(I.heap)
            if name in ("kl_normal_distribution", "kl_gamma_distribution"): gibbs(F, w)
            def post(v):
                F.same("closed form of the divergence", v, w); F.frame("argument", *[x for x in a if isinstance(x, Arr)], before=before)
            F.run(lambda: I.call(fn, tuple(a)), post)
            return F.done()
        return f
    P = lambda n: sym(n, "R", "pos"); R = lambda n: sym(n, "R")
    def dir_(F): return [F.arr("dq", N, kind="pos"), F.arr("dp", N, kind="pos")]
    def mvn(F): assume_pd_(F); return [F.arr("mq", D), F.arr("Vq", D, D), F.arr("mp", D), F.arr("Vp", D, D)]
    def wis(F): assume_pd_(F); return [P("nq"), F.arr("Vq", D, D), P("np"), F.arr("Vp", D, D)]
    def nrm(F): return [R("mq"), P("vq"), R("mp"), P("vp")]
    def gam(F): return [P("bq"), P("cq"), P("bp"), P("cp")]
    A = lambda n: lambda *ix: app(n, *ix)
    return run_all("_kl_divergence",
        go("kl_dirichlet", dir_, lambda: kl_dirichlet(A("dq"), A("dp"), N), 2),
        go("kl_normal_distribution", nrm, lambda: kl_normal(R("mq"), P("vq"), R("mp"), P("vp")), 4),
        go("kl_multivariate_normal_distribution", mvn, lambda: kl_mvn(A("mq"), A("Vq"), A("mp"), A("Vp")), 4),
        go("kl_gamma_distribution", gam, lambda: kl_gamma(P("bq"), P("cq"), P("bp"), P("cp")), 4),
        go("kl_wishart_distribution", wis, lambda: kl_wishart(P("nq"), A("Vq"), P("np"), A("Vp")), 4))


def assume_pd_(F): F.I.assume.append(lambda c, I: True if c.op == "app" and c.a[0] == "PD" else None)


@task("_utils.logdet", "C20 C21 C22")
def t_logdet():
    def go(sh, note):
        def f():
            F = Fn(f"_utils.logdet[{note}]"); I = F.I; a = F.arr("Vq", *sh); before = dict(I.heap)
            def post(v):
                n = len(sh) - 2
                want = app("LOGDET", Mx(lambda i, j: app("Vq", i, j))) if n == 0 else F.spec(sh[:n], lambda *ix: app("LOGDET", Mx(lambda i, j: app("Vq", *ix, i, j))))
                F.same("log determinant of every (positive definite) matrix", v, want); F.frame("argument", a, before=before)
            F.run(lambda: I.call(F.func("_utils", "logdet"), (a,)), post)
            return F.done()
        return f
    return run_all("_utils.logdet", go((D, D), "one matrix"), go((N, D, D), "one matrix per state"))


@task("lemma.divergence_of_equal_laws", "C21 C22")
def t_self():
    F = Fn("lemma divergence of equal laws is zero"); A = lambda n: lambda *ix: app(n, *ix); P = lambda n: sym(n, "R", "pos"); R = lambda n: sym(n, "R")
    F.arr("dq", N, kind="pos"); F.arr("Vq", D, D); F.arr("mq", D)
    z = lambda what, t: F.V.eqv(F.I, what, t, ZERO)
    z("Dirichlet", kl_dirichlet(A("dq"), A("dq"), N)); z("normal", kl_normal(R("mq"), P("vq"), R("mq"), P("vq"))); z("gamma", kl_gamma(P("bq"), P("cq"), P("bq"), P("cq")))
    # trace(V^-1 V) = d
    tr = S1(D, lambda i: S1(D, lambda j: mul(app("INV", Mx(A("Vq")), i, j), app("Vq", j, i))))
    z("multivariate normal", subst_term(kl_mvn(A("mq"), A("Vq"), A("mq"), A("Vq")), tr, D)); z("Wishart", subst_term(kl_wishart(P("nq"), A("Vq"), P("nq"), A("Vq")), S1(D, lambda i: S1(D, lambda j: mul(app("Vq", i, j), app("INV", Mx(A("Vq")), j, i)))), D))
    for o in F.V.out: o["function"] = "lemma"
    return F.V.out


def subst_term(t, x, y):
    """replaces the trace of a matrix times its inverse by the dimension"""
    from ..nf import alpha
    return subst(alpha(t), {alpha(x): y})
