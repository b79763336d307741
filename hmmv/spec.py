"""Specification functions (mathematical definitions) the contracts are stated with.

FWD(p, A, B, t, j)  = sum over paths ending in j at t of  p * prod A * prod B         (forward variable)
BWD(A, B, T, t, i)  = sum over continuations                                           (backward variable)
VIT(p, A, B, t, j)  = max over paths ending in j at t                                  (Viterbi variable)
each given by its defining recursion (lean/ proves that the recursions equal the sums / maxima over paths).
p: lam over i, A: lam over (i, j), B: lam over (t, j)."""
from .terms import *
from .terms import mk
from .nf import Rules, canon

for _n in ("FWD", "BWD", "VIT", "CP", "ZPREV"): NONNEG.add(_n)


def FWD(p, A, B, t, j): return app("FWD", p, A, B, num(t), num(j))
def BWD(A, B, t, i): return app("BWD", A, B, num(t), num(i))
def VIT(p, A, B, t, j): return app("VIT", p, A, B, num(t), num(j))


def Z(p, A, B, t):
    n = p.a[1][0]; j = fresh("b")
    return ssum(j, n, FWD(p, A, B, t, j))


def _time(t, ctx, T=None):
    """0 / 'step' / None for the forward recursion"""
    if ctx.decide(eq(t, 0)) is True: return 0
    if ctx.decide(le(1, t)) is True: return 1
    return None


def u_fwd(args, ctx, probe):
    p, A, B, t, j = args
    c = _time(t, ctx)
    if probe: return None if c is None else (p, A, B, canon(t, ctx))
    if c == 0: return mul(lam_at(p, j), lam_at(B, ZERO, j))
    i = fresh("b"); n = p.a[1][0]
    return mul(ssum(i, n, mul(FWD(p, A, B, sub(t, 1), i), lam_at(A, i, j))), lam_at(B, t, j))


def u_vit(args, ctx, probe):
    p, A, B, t, j = args
    c = _time(t, ctx)
    if probe: return None if c is None else (p, A, B, canon(t, ctx))
    if c == 0: return mul(lam_at(p, j), lam_at(B, ZERO, j))
    i = fresh("b"); n = p.a[1][0]
    return mul(smax(i, n, mul(VIT(p, A, B, sub(t, 1), i), lam_at(A, i, j))), lam_at(B, t, j))


def u_bwd(args, ctx, probe):
    A, B, t, i = args
    T = B.a[1][0]; n = B.a[1][1]
    e = ctx.decide(eq(t, sub(T, 1))); s = ctx.decide(lt(t, sub(T, 1)))
    if probe: return (A, B, canon(t, ctx)) if e is True or s is True else None
    if e is True: return ONE
    j = fresh("b")
    return ssum(j, n, mul(lam_at(A, i, j), lam_at(B, add(t, 1), j), BWD(A, B, add(t, 1), j)))


def u_cp(args, ctx, probe):
    """CP(c, t) = prod_{s >= t} c(s)"""
    c, t = args
    T = c.a[1][0]
    e = ctx.decide(eq(t, sub(T, 1))); s = ctx.decide(lt(t, sub(T, 1)))
    if probe: return (c, canon(t, ctx)) if e is True or s is True else None
    if e is True: return lam_at(c, t)
    return mul(lam_at(c, t), app("CP", c, add(t, 1)))


def ZPREV(P, A, B, t): return app("ZPREV", P, A, B, num(t))


def u_zprev(args, ctx, probe):
    """ZPREV(t) = Z(t-1), ZPREV(0) = 1"""
    P, A, B, t = args
    c = _time(t, ctx)
    if probe: return None if c is None else (P, A, B, canon(t, ctx))
    return ONE if c == 0 else Z(P, A, B, sub(t, 1))


def n_zprev(ctx, args):
    t = args[3]
    if ctx.decide(eq(t, 0)) is True: return ONE
    if ctx.decide(le(1, t)) is True: return Z(*args[:3], sub(t, 1))
    return None


Rules.unfold.update(FWD=u_fwd, VIT=u_vit, BWD=u_bwd, CP=u_cp, ZPREV=u_zprev)
Rules.appnorm["ZPREV"] = n_zprev

POSZ = set()     # (p, A, B) for which Z(t) > 0 for every t (established by the division obligations of the forward pass)


def _pos(t, ctx):
    if t.op == "sum":
        v, n, b = t.a
        if b.op == "app" and b.a[0] == "FWD" and b.a[5] is v and tuple(b.a[1:4]) in POSZ: return True
    if t.op == "app" and t.a[0] == "ZPREV" and tuple(t.a[1:4]) in POSZ: return True
    return False


Rules.pos.append(_pos)
