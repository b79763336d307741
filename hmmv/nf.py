"""Normal forms and the equality prover.

A term is expanded into a polynomial whose monomials are  c * sum_{binders} prod atom^e ; atoms are
canonicalised recursively (bound variables named by height), so alpha-equivalent expressions coincide.
Integer side conditions are discharged by z3."""
import hashlib, itertools, time
from fractions import Fraction
import z3
from .terms import *
from .terms import mk, _E

STATS = {"z3_queries": 0, "z3_seconds": 0.0}


class Limit(Exception): pass


def dig(s): return hashlib.blake2b(s.encode(), digest_size=9).hexdigest()


_skc = {}


def skey(t, env=None):
    """name-independent digest; env maps outer bound variables to labels"""
    rel = tuple(sorted((env[v], v.id) for v in fv(t) if env and v in env)) if env else ()
    k = (t, rel)
    r = _skc.get(k)
    if r is not None: return r
    if t.op == "c": s = "c" + str(t.a[0])
    elif t.op == "v": s = "v" + (env[t] if env and t in env else t.a[0])
    elif t.op == "app": s = "f" + t.a[0] + "(" + ",".join(skey(x, env) for x in t.a[1:]) + ")"
    elif t.op in ("+", "*", "and", "or"): s = t.op + ",".join(sorted(skey(x, env) for x in t.a))
    elif t.op == "^": s = "^" + skey(t.a[0], env) + str(t.a[1])
    elif t.op == "lam":
        e2 = dict(env or {})
        for i, v in enumerate(t.a[0]): e2.pop(v, None)
        s = "L" + ",".join(v.a[0] for v in t.a[0]) + "|" + ",".join(skey(d, env) for d in t.a[1]) + "." + skey(t.a[2], e2)
    elif t.op in BIND:
        e2 = dict(env or {}); e2.pop(t.a[0], None)
        s = t.op + t.a[0].a[0] + skey(t.a[1], env) + "." + skey(t.a[2], e2)
    else: s = t.op + "(" + ",".join(skey(x, env) for x in t.a) + ")"
    r = dig(s); _skc[k] = r
    return r


_hc = {}


def height(t):
    r = _hc.get(t)
    if r is None:
        r = max([height(k) for k in kids(t)], default=0)
        vs = t.a[0] if t.op == "lam" else (t.a[0],) if t.op in BIND else ()
        for v in vs:
            if v.a[0].startswith("#"): r = max(r, int(v.a[0][1:]))
        _hc[t] = r
    return r


_hv = {}


def hvar(h, sort="I"):
    k = (h, sort)
    if k not in _hv: _hv[k] = mk("v", ("#" + str(h),), sort)
    return _hv[k]


_al = {}


def alpha(t):
    """bound variables named by height"""
    if t.op in ("c", "v", "true", "false"): return t
    r = _al.get(t)
    if r is not None: return r
    if t.op == "lam":
        b = alpha(t.a[2]); ds = tuple(alpha(d) for d in t.a[1]); h = max([height(b)] + [height(d) for d in ds]); s = {v: hvar(h + 1 + i, v.sort) for i, v in enumerate(t.a[0])}
        r = mk("lam", (tuple(s.values()), ds, subst(b, s)), "L")
    elif t.op in BIND:
        b, n = alpha(t.a[2]), alpha(t.a[1]); h = hvar(1 + max(height(b), height(n)))
        r = mk(t.op, (h, n, subst(b, {t.a[0]: h})), t.sort)
    else: r = rebuild(t, [alpha(k) for k in kids(t)])
    _al[t] = r
    return r


class Rules:
    """Extension points: unfold[name](args)->term or None (definition of a specification function
    at the given arguments), expand rules for library functions."""
    unfold = {}
    appnorm = {}     # name -> fn(ctx, args) -> term or None
    lower = {}       # name -> term: applications of the symbol are at least this
    bounds = {}      # integer functions with a proved range: name -> upper bound (0 <= f < bound)
    pos = []         # fn(term, ctx) -> True if the term is known to be positive
    mono = []        # fn(ctx, c, binders, facs) -> list of terms (replacement) or None


class Ctx:
    def __init__(self, facts=(), parent=None):
        self.facts = []; self.solver = None; self.cache = {}; self.ncache = {}; self.zero = []; self.splits = 0
        self.deadline = parent.deadline if parent else None
        self.sub = dict(parent.sub) if parent else {}
        if parent: self.facts = list(parent.facts); self.zero = list(parent.zero)
        n0, s0 = len(self.facts), len(self.sub)
        for f in facts: self._add(f)
        if facts:
            self._squeeze(self.facts[n0:] if len(self.sub) == s0 else self.facts)
            if len(self.sub) != s0: self.facts = [f for f in self.facts if f is not TRUE]
            self.facts = list(dict.fromkeys(self.facts))

    def _squeeze(self, new):
        """x >= 0 and -x >= 0 over the integers: x = 0"""
        for _ in range(8):
            ds = [f.a[0] for f in new if f.op == "ge0" and f.a[0].sort == "I" and f.a[0].op != "c"]
            if not ds: return
            ge = {f.a[0] for f in self.facts if f.op == "ge0"}
            for d in ds:
                if neg(d) in ge:
                    s = solve_any(d)
                    if s and not (set(fv(s[1])) & {s[0]}): self._subst_all({s[0]: s[1]}); new = self.facts; break
            else: return

    def extend(self, *fs): return Ctx(fs, self)

    def _add(self, f):
        if self.sub: f = subst(f, self.sub)
        for g in (f.a if f.op == "and" else (f,)):
            if g is TRUE: continue
            g = imax(g)
            if g.op == "and" and g not in self.facts: [self._add(x) for x in g.a]; continue
            if g.op == "eq0":
                d = g.a[0]
                if d.sort == "I":
                    s = solve_any(d)
                    if s: self._subst_all({s[0]: s[1]}); continue
                else: self.real_eq(d)
            if g.op == "not" and g.a[0].op == "gt0" and g.a[0].a[0].sort != "I":
                o = mk("not", (mk("gt0", (neg(g.a[0].a[0]),), "B"),), "B")
                if o in self.facts: self.real_eq(g.a[0].a[0])
            self.facts.append(g)

    def _subst_all(self, m):
        self.sub = {k: subst(v, m) for k, v in self.sub.items()}; self.sub.update(m)
        self.facts = [subst(f, m) for f in self.facts]; self.zero = [subst(z, m) for z in self.zero]

    def real_eq(self, d):
        for x in (d.a if d.op == "+" else (d,)):
            y = x.a[1] if x.op == "*" and x.a[0].op == "c" and len(x.a) == 2 else x
            if y.op == "v" and y.sort == "R" and d.op == "+":
                k = x.a[0].a[0] if x.op == "*" else Fraction(1)
                rest = sub(d, x)
                if y not in fv(rest): return self._subst_all({y: mul(num(-1 / k), rest)})
        self.zero_fact(d)

    def zero_fact(self, d):
        """d == 0 for a real d."""
        if d.op == "*":
            rest = [x for x in d.a if x.op != "c"]
            if len(rest) == 1: d = rest[0]
        if d.op in ("v", "app", "sum", "max"): self.zero.append(d)

    def is_zero_atom(self, t):
        for z in self.zero:
            if z is t: return True
            if z.op == "max" and t.op == "app" and z.a[2].op == "app" and z.a[2].a[0] == t.a[0] and len(z.a[2].a) == len(t.a) and sign(z.a[2], None) in (1, 2):
                v, n, b = z.a; val = None
                for x, y in zip(b.a[1:], t.a[1:]):
                    if x is v: val = y
                if val is not None and self.decide(le(0, val)) is True and self.decide(lt(val, n)) is True:
                    b2 = subst(b, {v: val})
                    if all(x is y or (x.sort == "I" and y.sort == "I" and self.decide(eq(x, y)) is True) for x, y in zip(b2.a[1:], t.a[1:])): return True
            if z.op == "app" and t.op == "app" and z.a[0] == t.a[0] and len(z.a) == len(t.a):
                if all(x is y or (x.sort == "I" and y.sort == "I" and self.decide(eq(x, y)) is True) for x, y in zip(z.a[1:], t.a[1:])): return True
        return False

    # ------------------------------------------------------------ deciding
    def z(self, t, cst):
        op = t.op
        if op == "c": return z3.IntVal(int(t.a[0])) if t.sort == "I" else z3.RealVal(str(t.a[0]))
        if op == "v": return z3.Int(t.a[0]) if t.sort == "I" else z3.Bool(t.a[0]) if t.sort == "B" else z3.Real(t.a[0])
        if op == "true": return z3.BoolVal(True)
        if op == "false": return z3.BoolVal(False)
        if op == "+":
            xs = [self.z(x, cst) for x in t.a]; r = xs[0]
            for x in xs[1:]: r = r + x
            return r
        if op == "*":
            nonc = [x for x in t.a if x.op != "c"]
            if len(nonc) <= 2:
                xs = [self.z(x, cst) for x in t.a]; r = xs[0]
                for x in xs[1:]: r = r * x
                return r
        if op == "^" and t.a[1].denominator == 1 and 0 < t.a[1] <= 4:
            x = self.z(t.a[0], cst); r = x
            for _ in range(int(t.a[1]) - 1): r = r * x
            return r
        if op == "eq0": return self.z(t.a[0], cst) == 0
        if op == "ge0": return self.z(t.a[0], cst) >= 0
        if op == "gt0": return self.z(t.a[0], cst) > 0
        if op == "not": return z3.Not(self.z(t.a[0], cst))
        if op == "and": return z3.And([self.z(x, cst) for x in t.a])
        if op == "or": return z3.Or([self.z(x, cst) for x in t.a])
        if op == "ite": return z3.If(*[self.z(x, cst) for x in t.a])
        if op == "app" and t.a[0] in ("floordiv", "mod") and t.sort == "I":
            a, b = self.z(t.a[1], cst), self.z(t.a[2], cst)
            return a / b if t.a[0] == "floordiv" else a % b
        n = "@" + skey(alpha(t))
        r = z3.Int(n) if t.sort == "I" else z3.Bool(n) if t.sort == "B" else z3.Real(n)
        if t.sort == "R" and n not in cst:
            cst[n] = None
            s = sign(t, self)
            if s == 2: cst[n] = r > 0
            elif s == 1: cst[n] = r >= 0
            if op == "app" and t.a[0] in Rules.lower: cst[n + "lo"] = r >= self.z(Rules.lower[t.a[0]], cst)
        if op == "app" and t.sort == "I" and t.a[0] in Rules.bounds and n not in cst:
            cst[n] = None; cst[n] = z3.And(r >= 0, r < self.z(Rules.bounds[t.a[0]], cst))
        if op in ("argf", "argl") and n not in cst: cst[n] = z3.And(r >= 0, z3.Or(r < self.z(t.a[1], cst), self.z(t.a[1], cst) <= 0))
        return r

    def decide(self, c, extra=()):
        """True / False / None"""
        if self.sub: c = subst(c, self.sub)
        if c is TRUE: return True
        if c is FALSE: return False
        k = (c, tuple(extra))
        if k in self.cache: return self.cache[k]
        c = imax(c)
        if c is TRUE or c is FALSE: return c is TRUE
        fs = self.facts
        if c in fs: r = True
        elif not_(c) in fs: r = False
        else:
            r = self._real(c)
            if r is None and _hasq(c):
                r = self._quant(c, extra)
            elif r is None:
                r = self._z3(c, extra)
                d = c.a[0] if c.op == "not" else c
                if r is None and d.op in ("eq0", "ge0") and d.a[0].sort == "I" and any(x.op in BIND for x in walk(d)) and not getattr(self, "_rc", None):
                    self._rc = True
                    try: d2 = (eq if d.op == "eq0" else lambda x, z: le(z, x))(canon(d.a[0], self), ZERO)
                    finally: self._rc = False
                    if d2 is not d: r = self.decide(d2 if c.op != "not" else not_(d2), extra)
                if r is None and _hasm(c) and any(_hasq(f) or _hasm(f) for f in fs):
                    u = unmax(c)
                    if u is not c: r = self._quant(u, extra)
                if r is None and d.op in ("eq0", "gt0") and d.a[0].sort != "I" and not getattr(self, "_rc", None):
                    self._rc = True
                    try: d2 = ccond(d, self)
                    finally: self._rc = False
                    if d2 is not d: r = self.decide(d2 if c.op != "not" else not_(d2), extra)
            d = c.a[0] if c.op == "not" else c
            if r is None and d.op in ("and", "or"):
                stop = d.op == "or"; rs = []
                for x in d.a:
                    rs.append(self.decide(x, extra))
                    if rs[-1] is stop: break
                if stop in rs: r = stop
                elif None not in rs: r = not stop
                if r is not None and d is not c: r = not r
        self.cache[k] = r
        return r

    def _real(self, c):
        n = c.op == "not"; d = c.a[0] if n else c
        if d.op == "gt0" and d.a[0].sort != "I":
            s = sign(d.a[0], self)
            if s == 2: return not n
            if s is not None and s in (0, -1, -2) or s == 3: return n
            if sign(neg(d.a[0]), self) in (1, 2): return n
            if d.a[0].op == "max":
                v, m, b = d.a[0].a
                if sign(neg(b), self.extend(le(0, v), lt(v, m))) in (1, 2) and self.decide(le(1, m)) is True: return n
        if d.op == "eq0" and d.a[0].sort != "I":
            if sign(d.a[0], self) == 2 or sign(neg(d.a[0]), self) == 2: return n
        return None

    def _plain(self):
        if getattr(self, "_pc", None) is None or self._pcn != len(self.facts):
            self._pc = Ctx(); self._pc.facts = [f for f in self.facts if not (_hasq(f) or _hasm(f))]; self._pc.zero = list(self.zero); self._pcn = len(self.facts)
        return self._pc

    def _quant(self, c, extra):
        """decides a condition with quantifiers: quantified facts and goals are compared up to bound variables"""
        p = self._plain()
        def ex(t):
            k = ("q", t)
            if k not in p.cache: p.cache[k] = ccond(unmax(t), p)
            return p.cache[k]
        def cq(t):
            if not _hasq(t):
                if not _hasm(t): return t
                u = unmax(t)
                return cq(u) if u is not t else t
            if t.op == "or":
                xs = [x for x in t.a if x.op == "exists"]
                if len(xs) > 1: t = or_(*[x for x in t.a if x.op != "exists"], *merge([ex(x) for x in xs]))
                if t.op != "or": return cq(t)
                return or_(*[cq(x) for x in t.a])
            if t.op in ("and", "forall"): return not_(cq(not_(t)))
            if t.op == "not": return not_(cq(t.a[0]))
            if t.op == "exists":
                r = ex(t)
                return app("EX", r, sort="B") if r.op == "exists" else r if r.op in ("true", "false") else cq(r)
            return t
        def merge(xs):
            """exists k<n A or exists k<n B is exists k<n (A or B), which the constructors simplify"""
            out = [x for x in xs if x.op != "exists"]; by = {}
            for x in xs:
                if x.op == "exists": by.setdefault(x.a[1], []).append(x)
            for n, ys in by.items():
                if len(ys) == 1: out += ys; continue
                w = fresh("q"); b = or_(*[subst(y.a[2], {y.a[0]: w}) for y in ys])
                if b.op == "or": b = or_(*merge(b.a))
                r = binder("exists", w, n, b); out += r.a if r.op == "or" else (r,)
            return out
        if getattr(self, "_qf", None) is None or self._qf[0] != len(self.facts):
            f = cq(and_(*[f for f in self.facts if _hasq(f) or _hasm(f)]))
            q = Ctx(); q.facts = [f for f in self.facts if not (_hasq(f) or _hasm(f))] + list(f.a if f.op == "and" else (f,)); q.zero = self.zero; self._qf = len(self.facts), q
        q = self._qf[1]; g = cq(c)
        if g is TRUE or g is FALSE: return g is TRUE
        have = set(); [have.update(f.a if f.op == "and" else (f,)) for f in q.facts]
        if g in have or g.op == "and" and all(x in have for x in g.a) or g.op == "or" and any(x in have for x in g.a): return True
        ng = not_(g)
        if ng in have or ng.op == "and" and all(x in have for x in ng.a) or ng.op == "or" and any(x in have for x in ng.a): return False
        return q._z3(g, tuple(cq(x) for x in extra))

    def _inst(self, c):
        """instances of universally quantified facts at the index terms of the goal"""
        out = []
        for f in self.facts:
            if f.op != "forall": continue
            v, n, b = f.a
            pats = [x for x in walk(b) if x.op == "app" and v in x.a[1:]]
            for x in walk(c):
                if x.op != "app": continue
                for y in pats:
                    if y.a[0] != x.a[0] or len(y.a) != len(x.a): continue
                    i = y.a.index(v); ix = x.a[i]
                    if ix.sort != "I" or any(u.a[0].startswith("#") for u in fv(ix)): continue
                    g = subst(b, {v: ix})
                    if g not in out and self.decide(le(0, ix)) is True and self.decide(lt(ix, n)) is True: out.append(g)
        return out

    def _z3(self, c, extra):
        cst = {}
        t0 = time.process_time(); STATS["z3_queries"] += 2
        try:
            if getattr(self, "_zf", None) is None or self._zf[0] != len(self.facts):
                fc = {}; self._zf = len(self.facts), [self.z(f, fc) for f in self.facts if f.op not in ("exists", "forall")], fc
            hs = list(self._zf[1]); cst.update(self._zf[2])
            g = self.z(c, cst)
            for f in extra:
                if f.op in ("exists", "forall"): continue
                hs.append(self.z(f, cst))
            s = z3.Solver(); s.set("rlimit", 2000000); s.set("timeout", 20000)
            if any(f.op == "forall" for f in self.facts): hs += [self.z(f, cst) for f in self._inst(c) if not _hasq(f)]
            s.add(*hs); s.add(*[x for x in cst.values() if x is not None])
            s.push(); s.add(z3.Not(g)); r1 = s.check(); s.pop()
            if r1 == z3.unsat: return True
            s.add(g)
            if s.check() == z3.unsat: return False
            return None
        finally: STATS["z3_seconds"] += time.process_time() - t0

    def consistent(self, extra=()):
        cst = {}; hs = [self.z(f, cst) for f in list(self.facts) + list(extra) if f.op not in ("exists", "forall")]
        s = z3.Solver(); s.set("rlimit", 4000000); s.set("timeout", 20000); s.add(*hs); s.add(*[x for x in cst.values() if x is not None])
        STATS["z3_queries"] += 1
        return s.check() != z3.unsat


def unmax(t):
    """a maximum compared with something becomes a quantifier (a maximum is always over at least one value)"""
    if t.op in ("exists", "forall"): return binder(t.op, t.a[0], t.a[1], unmax(t.a[2]))
    if t.op == "not": return not_(unmax(t.a[0]))
    if t.op in ("and", "or"): return (and_ if t.op == "and" else or_)(*[unmax(x) for x in t.a])
    if t.op in ("gt0", "ge0"):
        d = t.a[0]; xs = d.a if d.op == "+" else (d,)
        for i, x in enumerate(xs):
            c, m = (x.a[0], x.a[1]) if x.op == "*" and len(x.a) == 2 and x.a[0].op == "c" else (ONE, x)
            if m.op != "max": continue
            w = fresh("q"); b = unmax(mk(t.op, (add(mul(c, subst(m.a[2], {m.a[0]: w})), *[y for j, y in enumerate(xs) if j != i]),), "B"))
            return binder("exists" if c.a[0] > 0 else "forall", w, m.a[1], b)
    return t


def imax(t):
    """unmax for integer comparisons"""
    k = _imax.get(t)
    if k is None:
        k = t
        if t.op in ("and", "or"): k = (and_ if t.op == "and" else or_)(*[imax(x) for x in t.a])
        elif t.op == "not": k = not_(imax(t.a[0]))
        elif t.op == "ge0" and any(x.op == "max" or x.op == "*" and x.a[-1].op == "max" for x in (t.a[0].a if t.a[0].op == "+" else (t.a[0],))): k = unmax(t)
        _imax[t] = k
    return k


_imax = {}


def _hasm(t):
    """a real comparison with a maximum"""
    if t.op in ("and", "or", "not"): return any(_hasm(x) for x in t.a)
    if t.op not in ("gt0", "ge0") or t.a[0].sort == "I": return False
    d = t.a[0]
    return any(x.op == "max" or x.op == "*" and len(x.a) == 2 and x.a[0].op == "c" and x.a[1].op == "max" for x in (d.a if d.op == "+" else (d,)))


def _hasq(t):
    return t.op in ("exists", "forall") or t.op in ("and", "or", "not") and any(_hasq(x) for x in t.a)


def lin(d):
    """integer term -> (const, {sym-or-atom: coeff}) or None"""
    c = Fraction(0); m = {}
    for x in (d.a if d.op == "+" else (d,)):
        if x.op == "c": c += x.a[0]
        elif x.op == "*" and x.a[0].op == "c" and len(x.a) == 2: m[x.a[1]] = m.get(x.a[1], 0) + x.a[0].a[0]
        else: m[x] = m.get(x, 0) + 1
    return c, m


def solve_for(d, v):
    """d == 0 solved for symbol v (coefficient +-1, v nowhere else)"""
    c, m = lin(d)
    k = m.get(v)
    if k not in (1, -1): return None
    rest = sub(d, mul(num(k), v))
    if v in fv(rest): return None
    return mul(num(-k), rest)


def solve_any(d):
    c, m = lin(d)
    for v, k in sorted(m.items(), key=lambda p: -p[0].id):
        if v.op == "v" and k in (1, -1):
            s = solve_for(d, v)
            if s is not None: return v, s
    return None


# --------------------------------------------------------------- signs
def sign(t, ctx=None, d=0):
    """2: >0, 1: >=0, None unknown (3: ==0)"""
    if d > 30: return None
    op = t.op
    if op == "c": return 2 if t.a[0] > 0 else 3 if t.a[0] == 0 else None
    if op == "v":
        n = t.a[0]
        if n in POS: return 2
        if t.sort == "I" and ctx is not None:
            if ctx.decide(le(1, t)) is True: return 2
            if ctx.decide(le(0, t)) is True: return 1
        if t.sort == "R" and ctx is not None and t in _posfacts(ctx): return 2
        return 1 if n in NONNEG else None
    if op == "app":
        n = t.a[0]
        if n == "exp": return 2
        if n in POS: return 2
        if n == "ZPREV" and any(f(t, ctx) for f in Rules.pos): return 2
        if ctx is not None and t in _posfacts(ctx): return 2
        if n in NONNEG: return 1
        if n == "abs": return 1
        if n == "EIGH" and any(f(t, ctx) for f in Rules.pos): return 2
        if n == "COV" and t.a[2] is t.a[3]: return 1
        if n == "pow": return sign(t.a[1], ctx, d + 1)
        return None
    if ctx is not None and t in _posfacts(ctx): return 2
    if op == "+":
        ss = [sign(x, ctx, d + 1) for x in t.a]
        if t.sort == "I" and ctx is not None and None in ss:
            return 2 if ctx.decide(le(1, t)) is True else 1 if ctx.decide(le(0, t)) is True else None
        if any(s is None for s in ss): return None
        return 2 if 2 in ss else 1
    if op == "*":
        ss = [sign(x, ctx, d + 1) for x in t.a]
        if any(s == 3 for s in ss): return 3
        if any(s is None for s in ss): return None
        return 2 if all(s == 2 for s in ss) else 1
    if op == "^":
        s = sign(t.a[0], ctx, d + 1)
        if t.a[1].denominator == 1 and t.a[1] % 2 == 0: return 2 if s == 2 else 1
        return s if s != 3 else 3
    if op in ("sum", "max", "prod"):
        if any(f(t, ctx) for f in Rules.pos): return 2
        v, n, b = t.a
        c2 = ctx.extend(le(0, v), lt(v, n)) if ctx is not None else None
        s = sign(b, c2, d + 1)
        if op == "sum": return 3 if s == 3 else 2 if s == 2 and ctx is not None and ctx.decide(le(1, n)) is True else 1 if s in (1, 2) else None
        return s
    if op == "ite":
        c, a, b = t.a
        s1 = sign(a, ctx, d + 1); s2 = sign(b, ctx, d + 1)
        if s1 is None or s2 is None: return None
        return min(1 if s1 == 3 else s1, 1 if s2 == 3 else s2) if not (s1 == s2 == 3) else 3
    return None


def _posfacts(ctx):
    if getattr(ctx, "_pf", None) is None or ctx._pfn != len(ctx.facts):
        s = set()
        for f in ctx.facts:
            if f.op == "gt0": s.add(f.a[0])
            if f.op == "not" and f.a[0].op == "gt0":      # x >= c > 0
                d = f.a[0].a[0]
                if d.op == "+" and any(x.op == "c" and x.a[0] > 0 for x in d.a):
                    c = [x for x in d.a if x.op == "c"][0]
                    x = sub(c, d); s.add(x)
                elif d.op == "+" and sum(1 for x in d.a if cfo(x) < 0) == 1 and all(sign(x, None) == 2 for x in d.a if cfo(x) > 0):
                    x = neg([x for x in d.a if cfo(x) < 0][0]); s.add(x)
                else: x = None
                if x is not None:
                    if x.op == "*" and x.a[0].op == "c" and x.a[0].a[0] > 0: s.add(mul(*x.a[1:]))
            if f.op == "not" and f.a[0].op == "eq0" and f.a[0].a[0].sort != "I":
                x = f.a[0].a[0]
                for y in (x, neg(x)):
                    if sign(y, None) == 1: s.add(y)
        ctx._pf = s; ctx._pfn = len(ctx.facts)
    return ctx._pf


# ------------------------------------------------------------ expansion
def expand(t, ctx):
    r = ctx.ncache.get(t)
    if r is None:
        if ctx.deadline and time.process_time() > ctx.deadline: raise Limit("time")
        r = collect(_expand(t, ctx), ctx)
        if len(r) > 4000: raise Limit("polynomial too large")
        ctx.ncache[t] = r
    return r


def mmul(m1, m2):
    c1, b1, f1 = m1; c2, b2, f2 = m2
    v1 = {v for v, _ in b1}
    if any(v in v1 for v, _ in b2): c2, b2, f2 = freshen(m2)
    f = dict(f1)
    for a, e in f2.items():
        if a.op == "iv" or a.sort == "B": f[a] = 1; continue
        e2 = f.get(a, 0) + e
        if e2: f[a] = e2
        else: f.pop(a)
    return (c1 * c2, b1 + b2, f)


def freshen(m):
    c, b, f = m
    s = {v: fresh("b") for v, _ in b}
    return (c, tuple((s[v], subst(n, s)) for v, n in b), {subst(a, s): e for a, e in f.items()})


def pmul(p, q):
    return [mmul(x, y) for x in p for y in q]


def atom(t, e=1): return [(Fraction(1), (), {t: Fraction(e)})]


def iv(c, ctx):
    """expansion of the Iverson bracket of c"""
    d = ctx.decide(c) if not (fv(c) and False) else None
    if d is True: return [(Fraction(1), (), {})]
    if d is False: return []
    if c.op == "and":
        r = [(Fraction(1), (), {})]
        for x in c.a: r = pmul(r, iv(x, ctx))
        return r
    if c.op == "or":
        r = [(Fraction(1), (), {})]
        for x in c.a: r = pmul(r, padd(iv(TRUE, ctx), pscale(iv(x, ctx), -1)))
        return padd(iv(TRUE, ctx), pscale(r, -1))
    if c.op == "not": return padd(iv(TRUE, ctx), pscale(iv(c.a[0], ctx), -1))
    c = ccond(c, ctx)
    if c is TRUE: return [(Fraction(1), (), {})]
    if c is FALSE: return []
    if c.op in ("not", "and", "or"): return iv(c, ctx)
    if c.op == "ge0":
        o = not_(c)
        if skey(o) < skey(c): return padd(iv(TRUE, ctx), pscale([(Fraction(1), (), {o: 1})], -1))
    return [(Fraction(1), (), {c: Fraction(1)})]


def ccond(c, ctx):
    """canonical form of an atomic condition"""
    if c.op in ("eq0", "ge0", "gt0"):
        d = canon(c.a[0], ctx)
        if d.sort != "I":
            if d.op in ("+", "sum", "*"):      # clear positive denominators, drop positive common factors
                p = expand(d, ctx); com = {}
                for _, b, f in p:
                    bv = {v for v, _ in b}
                    for a, e in f.items():
                        if a.sort == "B" or (fv(a) & bv): continue
                        if e < 0 or all(f2.get(a, 0) > 0 for _, _, f2 in p): com[a] = min(f2.get(a, Fraction(0)) for _, _, f2 in p)
                com = {a: e for a, e in com.items() if e and sign(a, ctx) == 2}
                if com: d = canon(mul(*[toterm([(k, b, {a: e - com.get(a, 0) for a, e in {**{x: Fraction(0) for x in com}, **f}.items() if e != com.get(a, 0)}) for k, b, f in p])]), ctx)
            # scale so that the largest coefficient is +-1
            if d.op == "c": return (TRUE if (d.a[0] == 0 if c.op == "eq0" else d.a[0] > 0) else FALSE)
            xs = d.a if d.op == "+" else (d,)      # a choice that depends neither on names nor on the scale
            k = max(abs(cfo(x)) for x in xs if x.op != "c")
            d = mul(num(1 / k), d)
            if c.op == "eq0":
                d2 = neg(d); d = min(d, d2, key=skey)
            if c.op == "gt0" and d.op not in ("+",):   # sign of a product: drop positive factors
                fs = [x for x in (d.a if d.op == "*" else (d,))]
                k2 = [x for x in fs if not (x.op != "c" and sign(x, ctx) == 2)]
                if len(k2) < len(fs): d = mul(*k2) if k2 else ONE
                if d.op == "c": return TRUE if d.a[0] > 0 else FALSE
            sg = sign(d, ctx)
            if sg == 2: return TRUE if c.op == "gt0" else FALSE
            if c.op == "gt0" and sign(neg(d), ctx) in (1, 2): return FALSE
        elif c.op == "eq0" and d.op == "+":      # orientation of an equality of two variables: the one bound last is subtracted
            vs = [(x if x.op == "v" else x.a[1], cfo(x)) for x in d.a if x.op == "v" or x.op == "*" and len(x.a) == 2 and x.a[0].op == "c" and x.a[1].op == "v"]
            if len(vs) == 2 and all(x.op == "c" or x.op == "v" or x.a[1].op == "v" for x in d.a) and max(vs, key=lambda x: vkey(x[0]))[1] > 0: d = canon(neg(d), ctx)
        return mk(c.op, (d,), "B")
    if c.op in ("exists", "forall"):
        v, n, b = c.a
        w = fresh("q"); c2 = ctx.extend(le(0, w), lt(w, n)); b2 = cbool(subst(b, {v: w}), c2)
        if b2 is TRUE or b2 is FALSE: return binder(c.op, w, canon(n, ctx), b2)
        h = hvar(1 + max(height(b2), height(n)))
        return mk(c.op, (h, canon(n, ctx), subst(b2, {w: h})), "B")
    if c.op == "app": return mk("app", (c.a[0],) + tuple(canon(x, ctx) for x in c.a[1:]), "B")
    return c


def cbool(c, ctx):
    d = ctx.decide(c)
    if d is not None: return TRUE if d else FALSE
    if c.op == "not": return not_(cbool(c.a[0], ctx))
    if c.op in ("and", "or"): return (and_ if c.op == "and" else or_)(*[cbool(x, ctx) for x in c.a])
    return ccond(c, ctx)


def vkey(v):
    n = v.a[0]; k = int("".join(c for c in n if c.isdigit()) or 0) if n[0] in "%#" else 0
    return ("#%".find(n[0]) + 1, k, n)


def cfo(x): return x.a[0] if x.op == "c" else x.a[0].a[0] if x.op == "*" and x.a[0].op == "c" else Fraction(1)


def padd(p, q): return list(p) + list(q)


def pscale(p, k): return [(c * k, b, f) for c, b, f in p]


def _expand(t, ctx):
    if ctx.sub and fv(t) & frozenset(ctx.sub): t = subst(t, ctx.sub)
    op = t.op
    if op == "c": return [(t.a[0], (), {})] if t.a[0] else []
    if op == "v": return [] if ctx.zero and ctx.is_zero_atom(t) else atom(t)
    if op == "+": return [m for x in t.a for m in expand(x, ctx)]
    if op == "*":
        r = [(Fraction(1), (), {})]
        for x in t.a:
            r = pmul(r, expand(x, ctx))
            if len(r) > 6000: raise Limit("polynomial too large")
        return r
    if op == "^": return power(expand(t.a[0], ctx), t.a[1], ctx)
    if op == "ite":
        c, a, b = t.a
        d = ctx.decide(c)
        if d is not None: return expand(a if d else b, ctx)
        pc = iv(c, ctx); pa = expand(a, ctx); pb = expand(b, ctx)
        return pmul(pc, pa) + pb + pscale(pmul(pc, pb), -1)
    if op == "sum":
        v, n, body = t.a
        cn, _m = lin(n) if n.op == "+" else (0, None)
        if 0 < cn <= 3 and cn.denominator == 1 and n.sort == "I" and ctx.decide(le(0, sub(n, num(cn)))) is True:
            n0 = sub(n, num(cn))
            return expand(ssum(v, n0, body), ctx) + [m for i in range(int(cn)) for m in expand(subst(body, {v: add(n0, i)}), ctx)]
        w = fresh("b"); c2 = ctx.extend(le(0, w), lt(w, n))
        out = []
        for m in expand(subst(body, {v: w}), c2): out += addbinder(m, w, canon(n, ctx), ctx)
        return out
    if op == "prod": return eprod(t, ctx)
    if op in ("max", "argf", "argl"):
        v, n, body = t.a
        w = fresh("b"); n = canon(n, ctx); c2 = ctx.extend(le(0, w), lt(w, n))
        p = expand(subst(body, {v: w}), c2)
        pull = []
        if op == "max" or True:
            # positive factors independent of the bound variable come out of max (and do not matter to argmax)
            if p:
                com = common(p)
                for a, e in list(com.items()):
                    if w in fv(a) or sign(a, ctx) not in (1, 2) or (sign(a, ctx) == 1 and (op != "max" or e < 0)): com.pop(a)
                if com:
                    p = [(c, b, {a: e - com.get(a, 0) for a, e in f.items() if e != com.get(a, 0)}) for c, b, f in p]
                    p = collect(p, ctx)
                    if op == "max": pull = com
        b2 = toterm(p, c2)
        if b2.op == "c" and op == "max": r = [(b2.a[0], (), {})]
        elif w not in fv(b2) and op == "max": r = expand(b2, ctx)
        else:
            h = hvar(1 + max(height(b2), height(n)))
            t2 = mk(op, (h, n, subst(b2, {w: h})), t.sort)
            r = [] if ctx.zero and ctx.is_zero_atom(t2) else atom(t2)
        return pmul(r, [(Fraction(1), (), dict(pull))]) if pull else r
    if op == "app": return eapp(t, ctx)
    if t.sort == "B": return iv(t, ctx)
    raise AssertionError(op)


def common(p):
    com = None
    for c, b, f in p:
        bv = {v for v, _ in b}
        g = {a: e for a, e in f.items() if not (fv(a) & bv) and a.sort != "B"}
        com = g if com is None else {a: min(com[a], g[a]) for a in com if a in g}
    # factors absent somewhere but negative elsewhere are pulled out too
    for c, b, f in p:
        bv = {v for v, _ in b}
        for a, e in f.items():
            if e < 0 and a not in com and a.sort != "B":
                if all(not (fv(a) & {v for v, _ in b2}) for _, b2, _ in p):
                    com[a] = min([f2.get(a, 0) for _, _, f2 in p])
    return {a: e for a, e in com.items() if e}


def power(p, n, ctx):
    if not p: return [] if n > 0 else atom(app("inv0"))
    if n.denominator == 1 and n > 0:
        if len(p) == 1 and not p[0][1]:
            c, b, f = p[0]; return [(c ** int(n), (), {a: (e * n if a.sort != "B" else e) for a, e in f.items()})]
        if n <= 4:
            r = p
            for _ in range(int(n) - 1): r = collect(pmul(r, p), ctx)
            return r
    c0, fac, rest = prim(p, ctx)
    if rest is None:
        if n.denominator == 1: return [(c0 ** int(n) if n.denominator == 1 else c0, (), {a: e * n for a, e in fac.items() if a.sort != "B"} | {a: 1 for a in fac if a.sort == "B"})]
        f = {a: e * n for a, e in fac.items()}
        k = [(Fraction(1), (), f)]
        return pmul(k, cpow(c0, n))
    f = {a: e * n for a, e in fac.items()}
    r = toterm(rest, ctx)
    f[r] = f.get(r, 0) + n
    return pmul([(Fraction(1), (), f)], cpow(c0, n))


def cpow(c, n):
    if n.denominator == 1: return [(c ** int(n), (), {})]
    if c == 1: return [(Fraction(1), (), {})]
    # factor perfect squares for square roots
    return [(Fraction(1), (), {num(c): n})] if c > 0 else atom(mk("^", (num(c), n), "R"))


def prim(p, ctx):
    """p = c0 * prod fac * rest with rest a canonical multi-term polynomial (None if 1)"""
    com = common(p)
    q = [(c, b, {a: e - com.get(a, 0) for a, e in list(f.items()) + [(a, 0) for a in com if a not in f] if e != com.get(a, 0)}) for c, b, f in p]
    q = collect(q, ctx)
    if len(q) == 1 and not q[0][1] and not q[0][2]: return q[0][0], com, None
    if len(q) == 1 and not q[0][1]: return q[0][0], {**com, **q[0][2]}, None
    # leading coefficient
    ks = sorted((mkey(m), m[0]) for m in q)
    c0 = ks[0][1]
    if len(q) > 1 or True: c0 = abs(c0)
    return c0, com, [(c / c0, b, f) for c, b, f in q]


def toterm(p, ctx=None):
    out = []
    for k, m in sorted((mkey(m), i) for i, m in enumerate(p)):
        out.append(mterm(p[m]))
    return add(*out) if out else ZERO


def canon(t, ctx):
    if t.op == "c": return t
    if t.op == "v": return subst(t, ctx.sub) if ctx.sub else t
    if t.sort == "B": return cbool(t, ctx)
    if t.op == "lam":
        vs, dims, body = t.a
        ws = tuple(fresh("l") for _ in vs); dims = tuple(canon(d, ctx) for d in dims)
        c2 = ctx.extend(*[c for w, d in zip(ws, dims) for c in (le(0, w), lt(w, d))])
        b2 = canon(subst(body, dict(zip(vs, ws))), c2)
        h = max([height(b2)] + [height(d) for d in dims])
        hs = tuple(hvar(h + 1 + i) for i in range(len(ws)))
        return mk("lam", (hs, dims, subst(b2, dict(zip(ws, hs)))), "L")
    return toterm(expand(t, ctx), ctx)


def morder(m):
    c, b, f = m
    if not b: return b
    vs = [v for v, _ in b]
    sig = {}
    for v, n in b:
        env = {u: ("@s" if u is v else "@o") for u in vs}
        sig[v] = skey(n, env) + dig("|".join(sorted(skey(a, env) + "^" + str(e) for a, e in f.items() if v in fv(a))))
    bs = sorted(b, key=lambda p: sig[p[0]])
    groups = [list(g) for _, g in itertools.groupby(bs, key=lambda p: sig[p[0]])]
    if all(len(g) == 1 for g in groups): return tuple(bs)
    best = None; cnt = 0
    for perm in itertools.product(*[itertools.permutations(g) for g in groups]):
        o = tuple(x for g in perm for x in g); cnt += 1
        k = fkey(o, f)
        if best is None or k < best[0]: best = (k, o)
        if cnt > 720: break
    return best[1]


def fkey(o, f):
    env = {v: "@%d" % i for i, (v, _) in enumerate(o)}
    return dig(";".join(skey(n, env) for _, n in o) + "#" + "|".join(sorted(skey(a, env) + "^" + str(e) for a, e in f.items())))


def mkey(m): return fkey(morder(m), m[2])


def mterm(m):
    c, b, f = m
    o = morder(m)
    h0 = max([height(a) for a in f] + [height(n) for _, n in b] + [0])
    s = {v: hvar(h0 + len(o) - i) for i, (v, _) in enumerate(o)}
    body = mul(*[(pw(subst(a, s), e) if a.sort != "B" else ite(subst(a, s), ONE, ZERO)) for a, e in f.items()]) if f else ONE
    for v, n in reversed(o): body = mk("sum", (s[v], subst(n, s), body), body.sort)
    return mul(num(c), body)


def collect(ms, ctx):
    out = {}
    for m in ms:
        for m2 in simp(m, ctx):
            k = mkey(m2)
            if k in out:
                c = out[k][0] + m2[0]
                if c: out[k] = (c,) + out[k][1:]
                else: del out[k]
            else: out[k] = m2
    return list(out.values())


def ranges(b): return tuple(c for v, n in b for c in (le(0, v), lt(v, n)))


def simp(m, ctx):
    """simplifies one monomial: brackets, delta elimination, library rules -> list of monomials"""
    c, b, f = m
    if c == 0: return []
    conds = [a for a in f if a.sort == "B"]
    if conds:
        ex = ranges(b)
        for a in conds:
            d = ctx.decide(a, ex) if (fv(a) & {v for v, _ in b}) else ctx.decide(a)
            if d is False: return []
            if d is True:
                f = {x: e for x, e in f.items() if x is not a}
                return simp((c, b, f), ctx)
        if len(conds) > 1:
            for a in conds:
                d = ctx.decide(a, ex + tuple(x for x in conds if x is not a))
                if d is False: return []
                if d is True:
                    f = {x: e for x, e in f.items() if x is not a}
                    return simp((c, b, f), ctx)
        for a in conds:
            if a.op == "eq0" and a.a[0].sort == "I":
                for v, n in b:
                    if v in fv(a):
                        s = solve_for(a.a[0], v)
                        if s is None: continue
                        b2 = tuple(x for x in b if x[0] is not v)
                        if any(v in fv(n2) for _, n2 in b2): continue
                        g = [ite(le(0, s), ONE, ZERO), ite(lt(s, n), ONE, ZERO)]
                        body = mul(num(c), *g, *[pw(subst(x, {v: s}), e) if x.sort != "B" else ite(subst(x, {v: s}), ONE, ZERO) for x, e in f.items() if x is not a])
                        c2 = ctx.extend(*ranges(b2)) if b2 else ctx
                        out = []
                        for m2 in expand(body, c2): out.append((m2[0], m2[1] + b2, m2[2]))
                        return [m3 for m2 in out for m3 in simp(m2, ctx)]
                # equality between free integer symbols: substitute so that equal terms coincide
                if not (fv(a) & {v for v, _ in b}):
                    s = solve_any(a.a[0])
                    if s and any(s[0] in fv(x) for x in f if x is not a):
                        body = mul(num(c), ite(a, ONE, ZERO), *[pw(subst(x, {s[0]: s[1]}), e) if x.sort != "B" else ite(subst(x, {s[0]: s[1]}), ONE, ZERO) for x, e in f.items() if x is not a])
                        bb = tuple((v, subst(n, {s[0]: s[1]})) for v, n in b)
                        c2 = ctx.extend(*ranges(bb)) if bb else ctx
                        return [(m2[0], m2[1] + bb, m2[2]) for m2 in expand(body, c2)]
    # a bound variable that occurs nowhere: multiply by the range
    for i, (v, n) in enumerate(b):
        if not any(v in fv(a) for a in f) and not any(v in fv(n2) for _, n2 in b):
            b2 = b[:i] + b[i + 1:]
            if n.op == "c" : return simp((c * max(n.a[0], 0), b2, f), ctx)
            return [m3 for m2 in pmul([(c, b2, f)], expand(n, ctx)) for m3 in simp(m2, ctx)]
    x = argmax_rule(ctx, c, b, f)
    if x is not None: return [m3 for m2 in x for m3 in simp(m2, ctx)]
    x = cancel_rule(ctx, c, b, f)
    if x is not None: return [m3 for m2 in x for m3 in simp(m2, ctx)]
    for r in Rules.mono:
        x = r(ctx, c, b, f)
        if x is not None: return [m3 for m2 in x for m3 in simp(m2, ctx)]
    return [(c, b, f)]


def cancel_rule(ctx, c, b, f):
    """(sum_v g(v)) / (sum_v g(v)) = 1 where the numerator has been expanded"""
    if not b: return None
    for a, e in f.items():
        if e >= 0 or a.op != "sum": continue
        h, n, body = a.a; k = Fraction(1); g = {}; bs = [(h, n)]
        while body.op == "sum": bs.append((body.a[0], body.a[1])); body = body.a[2]
        for x in (body.a if body.op == "*" else (body,)):
            if x.op == "c": k *= x.a[0]; continue
            y, q = (x.a[0], x.a[1]) if x.op == "^" else (x, Fraction(1))
            if y.op == "ite" and y.a[1] is ONE and y.a[2] is ZERO: y = y.a[0]
            g[y] = g.get(y, 0) + q
        if any(x.op == "+" for x in g): continue
        def match(i, m):
            if i == len(bs):
                g2 = {subst(x, m): q for x, q in g.items()}
                if any(x not in f or (x.sort != "B" and (f[x] < q if q > 0 else f[x] > q)) for x, q in g2.items()): return None
                vs = set(m.values()); f2 = {}
                for x, q in f.items():
                    r = q - g2.get(x, 0) if x.sort != "B" or x not in g2 else 0
                    if x is a: r = q + 1
                    if r: f2[x] = r
                if any(fv(x) & vs for x in f2): return None
                return [(c / k, tuple(x for x in b if x[0] not in vs), f2)]
            hv, hn = bs[i]
            for v, nn in b:
                if v not in m.values() and nn is subst(hn, m):
                    r = match(i + 1, {**m, hv: v})
                    if r is not None: return r
            return None
        r = match(0, {})
        if r is not None and not any(set(v for v, _ in b) - set(v for v, _ in r[0][1]) & fv(nn) for _, nn in r[0][1]): return r
    return None


_AM = set()


def argmax_rule(ctx, c, b, f):
    """g(argmax g) = max g"""
    for a in f:
        if a.sort == "B": continue
        for x in (y for k in kids(a) for y in walk(k)):
            if x.op not in ("argf", "argl") or any(v.a[0].startswith("#") for v in fv(x)): continue
            v, n, g = x.a
            if ctx.decide(le(1, n)) is not True: continue
            if x in _AM: continue
            _AM.add(x)
            try: p = expand(subst(g, {v: x}), Ctx((), ctx))
            finally: _AM.discard(x)
            if len(p) != 1 or p[0][1]: continue
            k, _, h = p[0]
            if k <= 0 or any(f.get(y, 0) < e or e < 0 for y, e in h.items()) or not h: continue
            f2 = {y: e - h.get(y, 0) for y, e in f.items() if e != h.get(y, 0)}
            mx = mk("max", (v, n, g), "R")
            f2[mx] = f2.get(mx, 0) + 1
            return [(c / k, b, f2)]
    return None


def addbinder(m, w, n, ctx):
    c, b, f = m
    return simp((c, b + ((w, n),), f), ctx)


def eprod(t, ctx):
    v, n, body = t.a
    n = canon(n, ctx)
    w = fresh("b"); c2 = ctx.extend(le(0, w), lt(w, n)); p = expand(subst(body, {v: w}), c2)
    if not p:
        return expand(ite(le(n, 0), ONE, ZERO), ctx)
    c0, fac, rest = prim(p, c2)
    items = [(a, e) for a, e in fac.items()]
    if rest is not None: items.append((toterm(rest, c2), Fraction(1)))
    out = [(Fraction(1), (), {})]
    if c0 != 1: out = pmul(out, expand(app("pow", num(c0), n), ctx))
    # telescoping  prod f(w+1)/f(w)
    done = set()
    for a, e in items:
        if a in done or w not in fv(a) or e <= 0: continue
        a0 = canon(subst(a, {w: sub(w, 1)}), c2)
        for a2, e2 in items:
            if a2 is a0 and e2 == -e and a2 not in done:
                done |= {a, a2}
                out = pmul(out, power(expand(subst(a, {w: sub(n, 1)}), ctx), e, ctx)); out = pmul(out, power(expand(subst(a0, {w: ZERO}), ctx), -e, ctx))
    for a, e in items:
        if a in done: continue
        if w not in fv(a):
            if a.sort == "B": out = pmul(out, expand(ite(or_(a, le(n, 0)), ONE, ZERO), ctx)); continue
            out = pmul(out, power(expand(app("pow", a, n), ctx), e, ctx))
        elif a.sort == "B":
            out = pmul(out, iv(binder("forall", w, n, a), ctx))
        else:
            if a.op == "app" and a.a[0] == "exp": out = pmul(out, expand(exp(ssum(w, n, mul(num(e), a.a[1]))), ctx)); continue
            h = hvar(1 + max(height(a), height(n)))
            out = pmul(out, atom(mk("prod", (h, n, subst(a, {w: h})), "R"), e))
    return out


def eapp(t, ctx):
    name = t.a[0]
    if name == "exp":
        out = [(Fraction(1), (), {})]
        for c, b, f in expand(t.a[1], ctx):
            if not b and len(f) == 1:
                (a, e), = f.items()
                if a.op == "app" and a.a[0] == "log" and e == 1:
                    out = pmul(out, power(expand(a.a[1], ctx), c, ctx)); continue
            if len(b) >= 1:
                # exp of a sum of logs is a product
                (w, n) = b[0]
                if len(b) == 1 and len(f) == 1:
                    (a, e), = f.items()
                    if a.op == "app" and a.a[0] == "log" and e == 1:
                        out = pmul(out, power(expand(sprod(w, n, a.a[1]), ctx), c, ctx)); continue
            # n * log(x)
            ls = [a for a in f if a.op == "app" and a.a[0] == "log" and f[a] == 1]
            if not b and len(ls) == 1:
                rest = mul(*[pw(a, e) for a, e in f.items() if a is not ls[0]])
                if rest.sort == "I" and c.denominator in (1, 2):
                    out = pmul(out, power(expand(app("pow", ls[0].a[1], rest), ctx), c, ctx)); continue
            out = pmul(out, atom(app("exp", mterm((Fraction(1), b, f))), c))
        return out
    if name == "log":
        p = expand(t.a[1], ctx)
        if not p: return atom(app("log", ZERO))
        c0, fac, rest = prim(p, ctx)
        out = []
        if c0 != 1: out += elogc(c0)
        for a, e in fac.items():
            if a.op == "app" and a.a[0] == "exp": out += pscale(expand(a.a[1], ctx), e)
            elif a.op == "prod":
                v, n, b = a.a; out += pscale(expand(ssum(v, n, log(b)), ctx), e)
            elif a.op == "app" and a.a[0] == "pow": out += pscale(expand(mul(a.a[2], log(a.a[1])), ctx), e)
            elif a.op == "c": out += pscale(elogc(a.a[0]), e)
            else: out += atom1(app("log", a), e)
        if rest is not None: out += atom1(app("log", toterm(rest, ctx)), 1)
        return out
    args = [canon(x, ctx) for x in t.a[1:]]
    if name == "pow":
        x, n = args
        if n.op == "c": return power(expand(x, ctx), n.a[0], ctx)
        p = expand(x, ctx); c0, fac, rest = prim(p, ctx) if p else (1, {}, None)
        if p and (len(fac) + (c0 != 1) + (rest is not None) > 1 or any(e != 1 for e in fac.values())):
            out = [(Fraction(1), (), {})]
            if c0 != 1: out = pmul(out, atom(app("pow", num(c0), n)))
            for a, e in fac.items(): out = pmul(out, power(expand(app("pow", a, n), ctx), e, ctx))
            if rest is not None: out = pmul(out, atom(app("pow", toterm(rest, ctx), n)))
            return out
        # split x^(n+1)
        const, m = lin(n)
        if const and const.denominator == 1:
            return pmul(power(p, const, ctx), expand(app("pow", x, sub(n, num(const))), ctx))
        if len(m) > 1 or any(k != 1 for k in m.values()):
            out = [(Fraction(1), (), {})]
            for a, k in m.items(): out = pmul(out, power(atom(app("pow", x, a)), Fraction(k), ctx))
            return out
        return atom(app("pow", x, n))
    if name in Rules.appnorm:
        r = Rules.appnorm[name](ctx, args)
        if r is not None: return expand(r, ctx)
    t2 = mk("app", (name,) + tuple(args), t.sort)
    if ctx.zero and ctx.is_zero_atom(t2): return []
    return atom(t2)


def atom1(a, e): return [(Fraction(e), (), {a: Fraction(1)})]


def elogc(c):
    """log of a positive rational as a combination of logs of primes"""
    out = []
    for q, s in ((c.numerator, 1), (c.denominator, -1)):
        q = abs(q); p = 2
        while q > 1 and p < 2000:
            while q % p == 0:
                out += atom1(app("log", num(p)), s); q //= p
            p += 1
        if q > 1: out += atom1(app("log", num(q)), s)
    return out


# --------------------------------------------------------------- proving
class Prover:
    def __init__(self, budget=20): self.budget = budget

    def zero(self, t, ctx, depth=7, unf=2):
        ctx = Ctx((), ctx); ctx.deadline = time.process_time() + self.budget
        try: return self._zero(t, ctx, depth, unf)
        except Limit as e:
            self.why = "limit: " + str(e); return False
        except RecursionError:
            self.why = "recursion"; return False

    def equal(self, a, b, ctx, **k): return self.zero(sub(a, b), ctx, **k)

    def _zero(self, t, ctx, depth, unf):
        if ctx.decide(FALSE) is True: return True
        p = expand(t, ctx)
        if not p: return True
        # case split on a condition without bound variables
        if depth > 0:
            conds = {}
            for c, b, f in p:
                bv = {v for v, _ in b}
                for a in self._conds(f, bv): conds[a] = conds.get(a, 0) + 1
            for a in sorted(conds, key=lambda x: (x.op != "eq0", -conds[x], skey(x))):
                r = True
                for g in (a, not_(a)):
                    c2 = ctx.extend(g)
                    if not c2.consistent(): continue
                    if not self._zero(t, c2, depth - 1, unf): r = False; break
                return r
        # cross-multiply denominators
        den = {}
        for c, b, f in p:
            bv = {v for v, _ in b}
            for a, e in f.items():
                if e < 0 and not (fv(a) & bv) and a.sort != "B": den[a] = max(den.get(a, 0), -e)
        den = {a: e for a, e in den.items() if a.op == "+" or a.op == "sum" or a.op == "v" or a.op == "app" or a.op == "max" or a.op == "prod"}
        if den:
            q = []
            for c, b, f in p:
                m = [(c, b, {a: e for a, e in f.items() if a not in den})]
                for a, e in den.items():
                    k = f.get(a, Fraction(0)) + e
                    if k.denominator == 1 and k > 0: m = pmul(m, power(expand(a, ctx), k, ctx))
                    elif k: m = pmul(m, [(Fraction(1), (), {a: k})])
                q += m
            q = collect(q, ctx)
            if not q: return True
        # unfold specification functions
        if unf > 0:
            tt = toterm(p, ctx)
            cand = {}
            for x in walk(tt):
                if x.op == "app" and x.a[0] in Rules.unfold:
                    k = Rules.unfold[x.a[0]](x.a[1:], ctx, probe=True)
                    if k is not None: cand[(x.a[0],) + tuple(k)] = x
            for k, x in sorted(cand.items(), key=lambda kv: skey(kv[1])):
                t2 = unfold_all(tt, k, ctx)
                if t2 is not tt and self._zero(t2, Ctx((), ctx), depth, unf - 1): return True
        self.why = "difference does not normalise to zero: " + show(toterm(p[:4], ctx))[:600] + " under " + "; ".join(show(f)[:80] for f in ctx.facts[-6:])
        return False

    def _conds(self, f, bv):
        out = []
        for a in f:
            if a.sort == "B":
                if not (fv(a) & bv): out.append(a)
            else:
                for x in walk(a):
                    if x.op == "ite" and not any(v.a[0].startswith(("#", "%b", "%l", "%q")) and v in bv or v.a[0].startswith("#") for v in fv(x.a[0])): out.append(x.a[0])
        return out


def unfold_all(t, k, ctx):
    memo = {}

    def go(x):
        if x in memo: return memo[x]
        if x.op in ("c", "v", "true", "false"): r = x
        elif x.op == "lam": r = mk("lam", (x.a[0], tuple(go(d) for d in x.a[1]), go(x.a[2])), "L")
        elif x.op in BIND: r = binder(x.op, x.a[0], go(x.a[1]), go(x.a[2]))
        else:
            if x.op == "app" and x.a[0] == k[0]:
                kk = Rules.unfold[k[0]](x.a[1:], ctx, probe=True)
                if kk is not None and (k[0],) + tuple(kk) == k:
                    r = Rules.unfold[k[0]](x.a[1:], ctx, probe=False); memo[x] = r; return r
            r = rebuild(x, [go(y) for y in kids(x)])
        memo[x] = r
        return r
    return go(t)
