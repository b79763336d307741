"""Closed forms of loop-carried values.  Every closed form is proved: it is either a syntactic summary
(sum, product, map, last write, fold) that is exact by construction, a candidate supplied by a contract whose base
and step are discharged by the prover (induction over the iterations), or a function defined by the recursion itself."""
from .terms import *
from .terms import mk
from .nf import Prover, canon, expand, sign, solve_for, toterm, collect, Rules, Limit, Ctx
from .val import *
from . import interp as IT


def prune(t, ctx, memo=None):
    """removes conditionals whose condition is decided by the context"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None: return r
    if t.op in ("c", "v", "true", "false"): return t
    if not any(x.op == "ite" for x in walk(t)): r = t
    elif t.op == "ite":
        c, a, b = t.a
        c = prune(c, ctx, memo) if c.op not in ("eq0", "ge0", "gt0") or any(x.op == "ite" for x in walk(c)) else c
        d = ctx.decide(c)
        if d is True: r = prune(a, ctx, memo)
        elif d is False: r = prune(b, ctx, memo)
        else: r = ite(c, prune(a, ctx.extend(c)), prune(b, ctx.extend(not_(c))))
    elif t.op in BIND:
        v, n, b = t.a
        w = fresh("b"); c2 = ctx.extend(le(0, w), lt(w, n))
        r = binder(t.op, w, prune(n, ctx, memo), prune(subst(b, {v: w}), c2))
    elif t.op == "lam":
        vs, ds, b = t.a
        ws = tuple(fresh("l", v.sort) for v in vs)
        c2 = ctx.extend(*[c for w, d in zip(ws, ds) for c in (le(0, w), lt(w, d))])
        r = mk("lam", (ws, ds, prune(subst(b, dict(zip(vs, ws))), c2)), "L")
    else: r = rebuild(t, [prune(x, ctx, memo) for x in kids(t)])
    memo[t] = r
    return r


def leaves(p, cond=TRUE):
    if p.op == "ite":
        c, a, b = p.a
        return leaves(a, and_(cond, c)) + leaves(b, and_(cond, not_(c)))
    return [(cond, p)]


def cond_of(p):
    """the conditions of the conditionals at the top of a term"""
    if p.op != "ite": return TRUE
    return and_(*[c if c.sort == "B" else TRUE for c in (p.a[0], not_(and_(cond_of(p.a[1]), cond_of(p.a[2]))))]) if p.a[1].op == "ite" or p.a[2].op == "ite" else p.a[0]


def leafmap(p, f): return ite(p.a[0], leafmap(p.a[1], f), leafmap(p.a[2], f)) if p.op == "ite" else f(p)


def fold(I, x, p, name, k, init, kctx):
    """carried scalar x = app(name,k,...) with post value p; returns fn(kexpr) or None"""
    if name not in IT.names_in(p, {name}):
        return lambda kk: ite(le(kk, 0), init, subst(p, {k: sub(kk, 1)}))
    # conditional increments
    if p.op == "ite" and not IT.names_in(cond_of(p), {name}):
        d = leafmap(p, lambda t: canon(sub(t, x), kctx))
        if not IT.names_in(d, {name}):
            l = fresh("l")
            return lambda kk: add(init, ssum(l, kk, subst(d, {k: l})))
    # additive / multiplicative
    try:
        e = expand(p, kctx)
        xs = expand(x, kctx)
        if len(xs) == 1 and not xs[0][1] and len(xs[0][2]) == 1:
            xa = next(iter(xs[0][2]))
            lin_, rest = [], []
            okm = True
            for c, b, f in e:
                g = {a: q for a, q in f.items() if a is not xa}
                m = IT.names_in(mul(*[a for a in g if a.sort != "B"] + [num01(a) for a in g if a.sort == "B"]) if g else ONE, {name})
                if m or f.get(xa, 0) not in (0, 1): okm = None; break
                (lin_ if f.get(xa, 0) == 1 else rest).append((c, b, g))
            if okm is not None:
                if len(lin_) == 1 and lin_[0][0] == 1 and not lin_[0][1] and not lin_[0][2]:
                    d = toterm(rest); l = fresh("l")
                    return lambda kk: add(init, ssum(l, kk, subst(d, {k: l})))
                if not rest and lin_:
                    q = toterm(lin_); l = fresh("l")
                    return lambda kk: mul(init, sprod(l, kk, subst(q, {k: l})))
    except Limit: pass
    # max fold
    v = maxpat(p, x, name)
    if v is not None:
        l = fresh("l"); g = subst(v, {k: l})
        if init is ZERO and sign(v, kctx) in (1, 2):
            return lambda kk: ite(le(kk, 0), ZERO, smax(l, kk, g))
        first = subst(v, {k: num(-1)})
        if canon(sub(init, first), kctx) is ZERO:      # max(v[0], max over 1.. of v) is the maximum from 0 on
            g1 = subst(v, {k: sub(l, 1)})
            return lambda kk: smax(l, add(kk, 1), g1)
        return lambda kk: ite(le(kk, 0), init, ite(lt(init, smax(l, kk, g)), smax(l, kk, g), init))
    return None


def maxpat(p, x, name):
    """p == max(x, v): returns v"""
    if p.op != "ite": return None
    c, a, b = p.a
    if a is x: v, other = b, True
    elif b is x: v, other = a, False
    else: return None
    if IT.names_in(v, {name}): return None
    g = gtform(c)
    if g is None: return None
    hi, strict = g          # condition says hi > 0 or hi >= 0
    want = sub(v, x) if not other else sub(x, v)
    return v if hi is want else None


def gtform(c):
    if c.op == "gt0": return c.a[0], True
    if c.op == "not" and c.a[0].op == "gt0": return neg(c.a[0].a[0]), False
    return None


def argpat(l, k, bylocs):
    """index carried along with a running maximum: (m loc, value v, index template, 'argf'/'argl')"""
    p = l.p
    if p.op != "ite": return None
    x = app(l.c, k, sort=l.sort)
    c, a, b = p.a
    if a is x: c, a, b = not_(c), b, a
    if b is not x or IT.names_in(a, set(bylocs)): return None
    for m in bylocs.values():
        if m is l or m.kind != "s": continue
        mx = app(m.c, k, sort=m.sort)
        v = maxpat(m.p, mx, m.c)
        if v is None: continue
        want = sub(v, mx)
        g = gtform(c)
        if g and g[0] is want: return m, v, a, "argf" if g[1] else "argl"
        if c.op == "or" and len(c.a) == 2:
            for c1, c2 in (c.a, c.a[::-1]):
                g = gtform(c1)
                if g and g[0] is want and g[1] and c2.op == "and":
                    es = [y for y in c2.a if y is eq(v, mx)]; rest = [y for y in c2.a if y is not eq(v, mx)]
                    if es and len(rest) == 1 and rest[0] is lt(x, a): return m, v, a, "argl"
    return None


def shape_of(l): return l.init.shape if l.kind == "arrv" else l.h.shape


def solve(I, locs, k, n, kctx, ctx0):
    fns = {}
    pend = []
    for l in locs:
        if l.kind == "s":
            l.vars = ()
            if l.log: l.p = lg(l.post).e; l.i = lg(l.init).e
            else: l.p = nt(l.post); l.i = nt(l.init)
        elif l.kind == "arrv":
            b = I.at(l.init, l.vars)
            l.i = lg(b).e if l.log else nt(b); l.p = lg(l.post).e if l.log else nt(l.post)
        else:
            b = l.init[1]
            if isinstance(b, Poison_()) or b is None:
                u = fresh("UNINIT").a[0]
                if l.log: NONNEG.add(u)
                l.i = app(u, *l.vars, sort=l.sort)
            else: l.i = lg(b).e if l.log else nt(b)
            l.i = subst(l.i, dict(zip(l.init[0], l.vars)))
            l.p = lg(l.post).e if l.log else nt(l.post)
        pend.append(l)
    by = {l.c: l for l in pend}
    # argmax pairs first (their shape is lost once the running maximum is substituted)
    for l in list(pend):
        if l.kind == "s" and l.sort == "I":
            a = argpat(l, k, by)
            if a:
                m, v, t, op = a
                if IT.names_in(v, set(by)) - {m.c}: pass
                first = subst(t, {k: ZERO})
                okinit = m.i is ZERO and sign(v, kctx) in (1, 2) and ctx0.decide(eq(l.i, first)) is True
                if okinit: l.arg = (v, t, op)
    def pr(l):
        p = IT.subst_apps(l.p, fns)
        if p is getattr(l, "_p0", None): return l._p1
        rg = [c for v, d in zip(l.vars, shape_of(l)) for c in (le(0, v), lt(v, num(d)))] if l.vars else []
        l._p0 = p; l._p1 = prune(p, kctx.extend(*rg) if rg else kctx)
        return l._p1
    while pend:
        prog = False
        names = {l.c for l in pend}
        for l in list(pend):
            p = pr(l)
            if getattr(l, "arg", None):
                v, t, op = l.arg; v2 = IT.subst_apps(v, fns)
                if not IT.names_in(v2, names):
                    w = fresh("l"); g = subst(v2, {k: w})
                    fns[l.c] = (lambda i, t, op, w, g: lambda kk: ite(le(kk, 0), i, subst(t, {k: binder(op, w, kk, g)})))(l.i, t, op, w, g)
                    pend.remove(l); prog = True
                continue
            deps = IT.names_in(p, names)
            if deps - {l.c}: continue
            f = one(I, l, p, k, n, kctx, ctx0)
            if f is None: continue
            fns[l.c] = f; pend.remove(l); prog = True
        if not prog:
            for l in pend:
                if getattr(l, "arg", None): l.arg = None; prog = True
            if prog: continue
            # functions defined by the recursion itself, for a smallest group closed under dependence
            P = {l: pr(l) for l in pend}
            dep = {l: {x for x in pend if x.c in IT.names_in(P[l], names)} | {l} for l in pend}
            for _ in pend:
                dep = {l: set().union(*[dep[x] for x in dep[l]]) for l in pend}
            grp = min(dep.values(), key=len)
            params = sorted({v for l in grp for v in fv(P[l]) | fv(l.i) if v.a[0].startswith("%") and v is not k and v not in l.vars}, key=lambda v: v.id)
            rn = {l.c: fresh("REC").a[0] for l in grp}
            for l in grp:
                if l.log: NONNEG.add(rn[l.c])
            def call(c, sort): return lambda kk, *ix: app(rn[c], *params, *ix, kk, sort=sort)
            new = {l.c: call(l.c, l.sort) for l in grp}
            for l in grp:
                p = IT.subst_apps(P[l], new)
                IT.RECDEF[rn[l.c]] = (list(params) + list(l.vars), k, l.i, p, l.sort)
                Rules.unfold[rn[l.c]] = IT._unfold_rec(rn[l.c])
                fns[l.c] = new[l.c]
            for l in grp: bounds(I, l, rn[l.c], k, n, kctx)
            pend = [l for l in pend if l not in grp]
    # resolve references between closed forms
    def closed(f): return lambda *a: IT.subst_apps(f(*a), fns2)
    fns2 = {}
    for c, f in fns.items(): fns2[c] = f
    return {c: close(f, fns) for c, f in fns.items()}


def Poison_():
    return IT.Poison


def close(f, fns):
    def g(*a):
        t = f(*a)
        for _ in range(4):
            if not IT.names_in(t, set(fns)): break
            t = IT.subst_apps(t, fns)
        return t
    return g


def bounds(I, l, name, k, n, kctx):
    """proves 0 <= R < d for an integer-valued recursive function, for the first d in I.dims that works"""
    if l.sort != "I": return
    ps, kv, init, step = IT.RECDEF[name][:4]
    for d in getattr(I, "dims", ()):
        x = fresh("r")
        body = step; rec = [y for y in IT.apps_of(step, name)]
        hyp = [c for y in rec for c in (le(0, y), lt(y, d))]
        c2 = kctx.extend(*hyp)
        if kctx.decide(and_(le(0, init), lt(init, d))) is True and c2.decide(and_(le(0, step), lt(step, d))) is True:
            Rules.bounds[name] = d; return


def unwritten(l, p, W, k, vs, ctx, S):
    """own reads at positions no earlier iteration writes see the initial content"""
    k1 = fresh("k")

    def go(t, ctx):
        if t.op in ("c", "v", "true", "false") or not IT.names_in(t, {l.c}): return t
        if t.op == "app" and t.a[0] == l.c:
            ix = tuple(go(y, ctx) for y in t.a[2:])
            if all(a is b for a, b in zip(ix, vs)): return t
            kk = t.a[1]
            w = subst(W, dict(zip((k,) + vs, (k1,) + ix)))
            if ctx.extend(le(0, k1), lt(k1, kk)).decide(w) is False: return S(l.i, ix)
            return mk("app", (l.c, kk) + ix, t.sort)
        if t.op == "ite":
            return ite(go(t.a[0], ctx), go(t.a[1], ctx.extend(t.a[0])), go(t.a[2], ctx.extend(not_(t.a[0]))))
        if t.op in BIND:
            v, m, b = t.a; u = fresh("b")
            return binder(t.op, u, go(m, ctx), go(subst(b, {v: u}), ctx.extend(le(0, u), lt(u, m))))
        if t.op == "lam":
            us = tuple(fresh("l") for _ in t.a[0])
            return mk("lam", (us, t.a[1], go(subst(t.a[2], dict(zip(t.a[0], us))), ctx.extend(*[c for u, d in zip(us, t.a[1]) for c in (le(0, u), lt(u, d))]))), "L")
        return rebuild(t, [go(y, ctx) for y in kids(t)])
    return go(p, ctx)


def reads2(V, ctx, l, vs, S, ks, Cs, f, base, rest):
    """own reads inside V -> the claimed value where written earlier or part of the base, else the initial content"""
    def go(t, ctx):
        if t.op in ("c", "v", "true", "false") or not IT.names_in(t, {l.c}): return t
        if t.op == "app" and t.a[0] == l.c:
            ix = tuple(go(y, ctx) for y in t.a[2:])
            if all(a is b for a, b in zip(ix, vs)): wr = FALSE
            else:
                k2 = S(ks, ix); wr = and_(le(0, k2), lt(k2, ks), S(Cs, ix))
            wr = or_(wr, S(base, ix))
            d = ctx.decide(wr)
            if d is not None: return f(*ix) if d else S(rest, ix)
            return ite(wr, f(*ix), S(rest, ix))
        if t.op == "ite":
            return ite(go(t.a[0], ctx), go(t.a[1], ctx.extend(t.a[0])), go(t.a[2], ctx.extend(not_(t.a[0]))))
        if t.op in BIND:
            v, m, b = t.a; u = fresh("b")
            return binder(t.op, u, go(m, ctx), go(subst(b, {v: u}), ctx.extend(le(0, u), lt(u, m))))
        if t.op == "lam":
            us = tuple(fresh("l") for _ in t.a[0])
            return mk("lam", (us, t.a[1], go(subst(t.a[2], dict(zip(t.a[0], us))), ctx.extend(*[c for u, d in zip(us, t.a[1]) for c in (le(0, u), lt(u, d))]))), "L")
        return rebuild(t, [go(y, ctx) for y in kids(t)])
    return go(V, ctx)


def one(I, l, p, k, n, kctx, ctx0):
    if l.kind == "s":
        x = app(l.c, k, sort=l.sort)
        p = prune(p, kctx)
        P = Prover(10)
        for nm, ar, log_, f in I.cands if l.sort == "R" and l.c in IT.names_in(p, {l.c}) else ():
            if ar != 0 or log_ is not l.log: continue
            for off in (0, 1, -1):
                g = lambda kk, off=off: f(add(kk, off))
                st = IT.subst_apps(p, {l.c: lambda kk: g(kk)}); goal = g(add(k, 1))
                if not I.plausible(l.i, g(ZERO), ctx0) or not I.plausible(st, goal, kctx): continue
                if P.equal(l.i, g(ZERO), ctx0) and P.equal(st, goal, kctx):
                    I.lemmas.append(f"loop invariant by induction: carried value = {nm}")
                    return lambda kk, g=g: g(kk)
        return fold(I, x, p, l.c, k, l.i, kctx)
    vs = l.vars
    rg = [c for v, d in zip(vs, shape_of(l)) for c in (le(0, v), lt(v, num(d)))]
    c2 = kctx.extend(*rg)
    x0 = app(l.c, k, *vs, sort=l.sort)
    p = prune(p, c2)
    S = lambda t, ix: subst(t, dict(zip(vs, ix)))
    W = or_(*[c for c, v in leaves(p) if v is not x0])
    if not IT.names_in(W, {l.c}): p = unwritten(l, p, W, k, vs, c2, S)
    if not IT.names_in(p, {l.c}):
        return lambda kk, *ix: ite(le(kk, 0), S(l.i, ix), subst(p, dict(zip((k,) + vs, (sub(kk, 1),) + ix))))
    lv = [(c, v) for c, v in leaves(p)]
    w = [(c, v) for c, v in lv if v is not x0]
    ks = None; okk = True
    for c, v in w:
        cand = None
        for a in (c.a if c.op == "and" else (c,)):
            if a.op == "eq0" and k in fv(a):
                s = solve_for(a.a[0], k)
                if s is not None: cand = s; break
        if cand is None or (ks is not None and ctx0.decide(eq(cand, ks)) is not True and cand is not ks): okk = False; break
        ks = cand
    if okk and ks is not None:
        C = or_(*[c for c, _ in w])
        V = w[-1][1]
        for c, v in reversed(w[:-1]): V = ite(c, v, V)
        Cs = subst(C, {k: ks}); V = subst(V, {k: ks})
        inr = and_(le(0, ks), lt(ks, n), Cs)
        wctx = ctx0.extend(*rg, inr)
        V = prune(V, wctx)
        rec = [False]

        def reads(t, ctx, F):
            """own reads inside t -> initial content or F(position)"""
            def go(t, ctx):
                if t.op in ("c", "v", "true", "false") or not IT.names_in(t, {l.c}): return t
                if t.op == "app" and t.a[0] == l.c:
                    ix = tuple(go(y, ctx) for y in t.a[2:])
                    if all(a is b for a, b in zip(ix, vs)): return l.i
                    k2 = S(ks, ix); wr = and_(le(0, k2), lt(k2, ks), S(Cs, ix))
                    d = ctx.decide(wr)
                    if d is False: return S(l.i, ix)
                    rec[0] = True
                    if d is True: return F(*ix)
                    return ite(wr, F(*ix), S(l.i, ix))
                if t.op == "ite":
                    c = go(t.a[0], ctx)
                    return ite(c, go(t.a[1], ctx.extend(t.a[0])), go(t.a[2], ctx.extend(not_(t.a[0]))))
                if t.op in BIND:
                    v, m, b = t.a; u = fresh("b")
                    return binder(t.op, u, go(m, ctx), go(subst(b, {v: u}), ctx.extend(le(0, u), lt(u, m))))
                if t.op == "lam":
                    us = tuple(fresh("l") for _ in t.a[0])
                    return mk("lam", (us, t.a[1], go(subst(t.a[2], dict(zip(t.a[0], us))), ctx.extend(*[c for u, d in zip(us, t.a[1]) for c in (le(0, u), lt(u, d))]))), "L")
                return rebuild(t, [go(y, ctx) for y in kids(t)])
            return go(t, ctx)
        params = sorted({v for v in fv(V) | fv(l.i) | fv(Cs) if v.a[0].startswith("%") and v not in vs}, key=lambda v: v.id)
        rn = fresh("F").a[0]
        F0 = lambda *ix: app(rn, *params, *ix, sort=l.sort)
        V1 = reads(V, wctx, F0)
        if not rec[0]:
            return lambda kk, *ix: ite(and_(S(le(0, ks), ix), lt(S(ks, ix), kk), S(Cs, ix)), S(V1, ix), S(l.i, ix))
        P = Prover(15)
        wr_ = lambda kk, ix: and_(S(le(0, ks), ix), lt(S(ks, ix), kk), S(Cs, ix))
        for nm, ar, log_, f in I.cands:
            if ar != len(vs) or log_ is not l.log: continue
            try: goal = f(*vs)
            except Exception: continue
            # base: the part of the initial content that already has the claimed value
            base, rest = FALSE, l.i
            while rest.op == "ite":
                c, v, r2 = rest.a
                b2 = ctx0.extend(*rg, c)
                if not b2.consistent(): rest = r2; continue
                if not I.plausible(v, goal, b2) or not P.equal(v, goal, b2): break
                base = or_(base, c); rest = r2
            old = [l.i]
            def F(*ix, base=base, rest=rest): return f(*ix)
            rec[0] = False
            V3 = reads2(V, wctx, l, vs, S, ks, Cs, f, base, rest) if base is not FALSE else V1
            V2 = IT.subst_apps(V3, {rn: lambda *a: f(*a[len(params):])})
            if not I.plausible(V2, goal, wctx): continue
            if P.equal(V2, goal, wctx, unf=3):
                I.lemmas.append(f"loop invariant by induction: carried array = {nm}")
                return lambda kk, *ix, base=base, rest=rest: ite(or_(wr_(kk, ix), S(base, ix)), f(*ix), S(rest, ix))
        if l.log: NONNEG.add(rn)
        IT.FDEF[rn] = (list(params) + list(vs), V1)
        Rules.unfold[rn] = IT._unfold_f(rn)
        return lambda kk, *ix: ite(and_(S(le(0, ks), ix), lt(S(ks, ix), kk), S(Cs, ix)), app(rn, *params, *ix, sort=l.sort), S(l.i, ix))
    if W is not TRUE and k not in fv(W) and not IT.names_in(W, {l.c}):
        c3 = c2.extend(W)
        f = fold(I, x0, prune(p, c3), l.c, k, l.i, c3)
        if f: return lambda kk, *ix: S(ite(W, f(kk), l.i), ix)
    f = fold(I, x0, p, l.c, k, l.i, c2)
    if f: return lambda kk, *ix: S(f(kk), ix)
    return None
