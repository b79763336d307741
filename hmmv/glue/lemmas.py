"""Lemmas about the specification functions, each proved here by induction and then available to the normaliser.

 posterior mass   sum_j FWD(t, j) BWD(t, j) = Z(T-1)          for 0 <= t < T
 scaling          CP(c, t) = Z(t-1) / Z(T-1)                   for c(t) = Z(t-1) / Z(t), Z(-1) = 1"""
from .base import *
from ..nf import Rules, expand, toterm

ENABLED = set()


def Zprev(P, A, B, t): return spec.ZPREV(P, A, B, t)


def mass_rule(ctx, c, b, f):
    if "mass" not in ENABLED: return None
    for F in f:          # a single state
        if F.op == "app" and F.a[0] == "FWD" and f[F] == 1 and F.a[3].a[1][1] is ONE:
            P, A, B, t, j = F.a[1:]
            for G in f:
                if G.op == "app" and G.a[0] == "BWD" and f[G] == 1 and G.a[1:] == (A, B, t, j) and ctx.decide(eq(t, sub(B.a[1][0], 1))) is not True and ctx.extend(*nf.ranges(b)).decide(and_(le(0, t), lt(t, B.a[1][0]))) is True:
                    return nf.pmul([(c, b, {a: e for a, e in f.items() if a is not F and a is not G})], expand(spec.FWD(P, A, B, sub(B.a[1][0], 1), ZERO), ctx))
    for v, n in b:
        us = [a for a in f if v in fv(a)]
        if len(us) != 2 or any(f[a] != 1 or a.op != "app" for a in us) or {a.a[0] for a in us} != {"FWD", "BWD"}: continue
        F, G = (us if us[0].a[0] == "FWD" else us[::-1])
        P, A, B, t, j = F.a[1:]
        if G.a[1:] != (A, B, t, j) or j is not v or B.a[1][1] is not n: continue
        if ctx.extend(*nf.ranges(b)).decide(and_(le(0, t), lt(t, B.a[1][0]))) is not True: continue
        rest = {a: e for a, e in f.items() if a not in us}
        b2 = tuple(x for x in b if x[0] is not v)
        return nf.pmul([(c, b2, rest)], expand(spec.Z(P, A, B, sub(B.a[1][0], 1)), ctx))
    return None


def cp_rule(ctx, args):
    if "scaling" not in ENABLED: return None
    C, t = args
    v = C.a[0][0]; body = C.a[2]
    for x in walk(body):
        if x.op == "app" and x.a[0] in ("FWD", "ZPREV"):
            P, A, B = x.a[1:4]; w = fresh("l"); n = C.a[1][0]
            if any(u in fv(P) | fv(A) | fv(B) for u in C.a[0]): continue
            c2 = ctx.extend(le(0, w), lt(w, n))
            want = canon(div(Zprev(P, A, B, w), spec.Z(P, A, B, w)), c2)
            if canon(subst(body, {v: w}), c2) is want: return div(Zprev(P, A, B, t), spec.Z(P, A, B, sub(n, 1)))
            return None
    return None


Rules.mono.append(mass_rule)
Rules.appnorm["CP"] = cp_rule


def generic():
    sp, tm, fp = kernels.L("lsp", N), kernels.L("ltm", N, N), kernels.L("lfp", T_, N)
    for x in ("lsp", "ltm", "lfp"): NONNEG.add(x)
    return sp, tm, fp


@task("lemma.posterior_mass", "C01 C02 C04 C05 C06 C07 C08 C09 C13 C20 C21")
def t_mass():
    """backward induction over t"""
    ENABLED.clear(); V = Verifier("lemma posterior mass"); P, A, B = generic(); I = Interp(Ctx(BASE)); t = fresh("t"); j = fresh("b")
    S = lambda t: ssum(j, N, mul(spec.FWD(P, A, B, t, j), spec.BWD(A, B, t, j)))
    V.eqv(I, "base: t = T - 1", S(sub(T_, 1)), spec.Z(P, A, B, sub(T_, 1)))
    I.ctx = I.ctx.extend(le(0, t), lt(t, sub(T_, 1)))
    V.eqv(I, "step: mass at t = mass at t + 1", S(t), S(add(t, 1)))
    for o in V.out: o["function"] = "lemma"
    return V.out


@task("lemma.scaling_products", "C01 C02 C05 C06 C07 C08 C13 C20 C21")
def t_scal():
    """backward induction over t, for c(t) = Z(t-1)/Z(t) with every Z(t) positive"""
    ENABLED.clear(); V = Verifier("lemma scaling products"); P, A, B = generic(); I = Interp(Ctx(BASE)); t = fresh("t"); w = fresh("l")
    positive_likelihood("lsp")
    C = lam((w,), (T_,), div(Zprev(P, A, B, w), spec.Z(P, A, B, w)))
    CP = lambda t: app("CP", C, t)
    R = lambda t: div(Zprev(P, A, B, t), spec.Z(P, A, B, sub(T_, 1)))
    V.eqv(I, "base: t = T - 1", CP(sub(T_, 1)), R(sub(T_, 1)))
    I.ctx = I.ctx.extend(le(0, t), lt(t, sub(T_, 1)))
    V.eqv(I, "step", mul(lam_at(C, t), R(add(t, 1))), R(t))
    for o in V.out: o["function"] = "lemma"
    return V.out


def positive_likelihood(pname):
    """precondition: every prefix of every sequence has positive probability (under the start probabilities of that name)"""
    def p(t, ctx):
        if t.op == "sum":
            v, n, b = t.a
            if b.op == "app" and b.a[0] == "FWD" and b.a[5] is v and b.a[1].a[2].op == "app" and b.a[1].a[2].a[0] == pname and v not in fv(b.a[4]): return True
        elif t.op == "app" and t.a[0] == "ZPREV" and t.a[1].a[2].op == "app" and t.a[1].a[2].a[0] == pname: return True
        return False
    Rules.pos.append(p)


def enable(): ENABLED.update(("mass", "scaling"))
