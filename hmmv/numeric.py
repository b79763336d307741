"""Numeric evaluation of terms on small random instances.

Used to refute obligations the prover cannot discharge, to cross-check the ones it does, and as a vacuity guard.
An instance gives values to the dimensions, symbols and uninterpreted functions (respecting their declared signs, ranges
and positivity facts); specification functions (FWD, BWD, VIT, CP, ...) and library functions with a definition are
computed.  An instance counts only if every assumption of the obligation holds on it and both sides are defined."""
import hashlib, itertools, math, random, time
from fractions import Fraction
import numpy as np
from .terms import *
from .terms import mk
from .nf import Rules, Ctx, canon, cbool, Limit
from . import interp as IT, spec

EPS = 1e-10


class Undef(Exception):
    """the instance does not satisfy an assumption, or a value is undefined or too close to a case boundary"""


def rnd(*k):
    return random.Random(hashlib.blake2b(repr(k).encode(), digest_size=8).digest())


def key(v):
    if isinstance(v, tuple): return tuple(key(x) for x in v)
    if isinstance(v, np.ndarray): return ("A", v.shape, tuple(key(float(x)) for x in v.ravel()))
    if isinstance(v, bool): return int(v)
    if isinstance(v, float): return int(v) if v == int(v) and abs(v) < 1e12 else float("%.9g" % v)
    return v


class Inst:
    def __init__(self, seed, ctx, terms=(), hints=()):
        self.r = rnd("inst", seed); self.seed = seed; self.ctx = ctx; self.pz = self.r.choice([0, 0, 0, .25, .5]); self.hi = self.r.choice([2, 3, 3])
        self.memo = {}; self.syms = {}; self.poscache = {}; self.pd = set(); self.deadline = time.process_time() + 20; self.mag = 0.0; self.appvals = {}; self.steps = 0
        self.stoch = set(); self.bad = self.r.choice([0, 0, .15, .4])
        self.grid = rnd('grid', seed).random() < .15      # matrices with exactly zero eigenvalues appear only here
        self.scale = self.r.choice([1, 1, 1, 3, 8]); cs = set(); self.consts = ()
        for t in terms:
            for x in walk(t):
                if x.op == "c" and x.a[0] not in (0, 1, -1, 2, -2): cs.add(abs(float(x.a[0])))
                if x.op == "app" and x.a[0] == "abs" and x.a[1].op == "+":      # rows compared with a constant: often make them sum to one
                    self.stoch |= {y.a[2].a[0] for y in x.a[1].a if y.op == "sum" and y.a[2].op == "app" and y.a[2].a[-1] is y.a[0]}
                if x.op == "app" and x.a[0] in ("INV", "CHOL", "CHOLU", "LOGDET", "PD", "EIGH", "DETSIGN") and x.a[1].op == "lam":
                    vs = x.a[1].a[0][-2:]
                    for y in walk(x.a[1].a[2]):
                        if y.op == "app" and len(y.a) > 2 and set(y.a[-2:]) == set(vs): self.pd.add(y.a[0])

        big = sorted({int(c) for c in cs if 4 <= c <= 130 and c == int(c)})           # a size near a constant of the obligation
        self.big = rnd("big", seed).choice(big) if big and rnd("bigp", seed).random() < .2 else 0
        self.consts = sorted(cs) if self.r.random() < .5 else ()

    # ---------------------------------------------------------------- generators
    def symbol(self, t):
        if t in self.ctx.sub: return self.ev(self.ctx.sub[t], {})
        v = self.syms.get(t)
        if v is None:
            n = t.a[0]; r = rnd("s", self.seed, n)
            if t.sort == "B": v = r.random() < .5
            elif t.sort == "I":
                v = r.randint(0, self.hi) if n.startswith(("%", "#")) else r.randint(1, self.hi)
                if self.big and not n.startswith(("%", "#")) and r.random() < .3: v = self.big + r.randint(0, 2)
            else: v = 2.2250738585072014e-308 if n == "TINY" else math.pi if n == "PI" else self.real(r, n)
            self.syms[t] = v
        return v

    def real(self, r, name, args=()):
        s = self.scale
        if self.consts and r.random() < .3:          # near a constant of the obligation
            c = r.choice(self.consts) * r.choice([.5, 2, 1])
            return abs(c) if name in POS or name in NONNEG else c * r.choice([-1, 1])
        if name in POS: return s * (.3 + 1.5 * r.random())
        if name in NONNEG: return 0.0 if r.random() < self.pz else s * (.2 + 1.3 * r.random())
        return 0.0 if r.random() < self.pz * .5 else s * r.uniform(-2, 2)

    def uninterpreted(self, t, name, args):
        k = (name, key(tuple(args)))
        v = self.appvals.get(k)
        if v is not None: return v
        r = rnd("a", self.seed, k)
        if t.sort == "B": v = r.random() < .5
        elif t.sort == "I":
            if name in Rules.bounds:
                b = int(self.ev(num(Rules.bounds[name]), {}))
                if b <= 0: raise Undef("empty range")
                v = r.randint(0, b - 1)
            else: v = r.randint(-1 if self.bad and r.random() < .3 and name not in NONNEG else 0, self.hi)
        elif name in self.pd and len(args) >= 2 and all(isinstance(x, (int, float)) for x in args[-2:]):
            if self.grid: v = float(r.choice([0, 1, 1.5])) if args[-1] == args[-2] else 0.0; self.appvals[k] = v; return v
            i, j = sorted(args[-2:]); r = rnd("pd", self.seed, name, key(tuple(args[:-2])), i, j)
            v = 1.4 + r.random() if i == j else .6 * (r.random() - .5)
            if rnd("as", self.seed, name, key(tuple(args[:-2]))).random() < self.bad: r = rnd("odd", self.seed, k); v = self.scale * r.uniform(-2, 2) if r.random() < .5 else v
        elif name in self.stoch and args and rnd("st", self.seed, name, key(tuple(args[:-1]))).random() >= self.bad: v = 1.0 if args[-1] == 0 else 0.0
        elif name == "DRAW_rand": v = r.random()
        else:
            v = self.real(r, name, args)
            if name in Rules.lower: v = abs(v) + self.ev(num(Rules.lower[name]), {})
        self.appvals[k] = v
        return v

    # ---------------------------------------------------------------- evaluation
    def assumed_pos(self, t):
        r = self.poscache.get(t)
        if r is None:
            r = False
            for p in Rules.pos:
                try:
                    if p(t, self.ctx) is True: r = True; break
                except Exception: pass
            self.poscache[t] = r
        return r

    def ev(self, t, env):
        op = t.op
        if op == "c": return int(t.a[0]) if t.a[0].denominator == 1 and abs(t.a[0]) < 10 ** 15 else float(t.a[0])
        if op == "true": return True
        if op == "false": return False
        if op == "v": return env[t] if t in env else self.symbol(t)
        k = (t, tuple(sorted((v.id, env[v]) for v in fv(t) if v in env)))
        r = self.memo.get(k)
        if r is not None:
            if isinstance(r, Undef): raise r
            return r
        self.steps += 1
        if self.steps % 1024 == 0 and time.process_time() > self.deadline: raise Undef("time")
        try: r = self.ev1(t, env)
        except Undef as e: self.memo[k] = e; raise
        except (OverflowError, ZeroDivisionError, ValueError, np.linalg.LinAlgError) as e:
            e = Undef(str(e)); self.memo[k] = e; raise e
        if isinstance(r, float) and (r != r or abs(r) > 1e20): r = Undef("out of range"); self.memo[k] = r; raise r
        if isinstance(r, (int, float)) and not isinstance(r, bool) and op in ("sum", "app", "prod", "max") and r <= 0 and self.assumed_pos(t):
            r = Undef("assumption"); self.memo[k] = r; raise r
        self.memo[k] = r
        return r

    def rng(self, n, env):
        n = self.ev(n, env)
        if n != int(n) or n > 300: raise Undef("range")
        return range(max(0, int(n)))

    def ev1(self, t, env):
        op = t.op; ev = self.ev
        if op == "+":
            xs = [ev(x, env) for x in t.a]
            if all(isinstance(x, int) for x in xs): return sum(xs)
            self.mag = max(self.mag, *map(abs, xs))
            return math.fsum(xs)
        if op == "*":
            r = 1
            for x in t.a:
                y = ev(x, env)
                r = r * y
            return r
        if op == "^":
            x = ev(t.a[0], env); n = t.a[1]
            if isinstance(x, float) and abs(x) < EPS * 1e-3 and x != 0 and n < 0 and (abs(x) < 1e-30 or t.a[0].op == "+" and abs(x) < 1e-9 * max(abs(ev(y, env)) for y in t.a[0].a)): raise Undef("near-zero divisor")
            if x == 0 and n < 0: raise Undef("division by zero")
            if n.denominator == 1: return x ** int(n) if n > 0 else 1.0 / float(x) ** int(-n)
            if x < 0: raise Undef("root of a negative number")
            return float(x) ** float(n)
        if op == "ite": return ev(t.a[1] if self.cond(t.a[0], env) else t.a[2], env)
        if t.sort == "B": return self.cond(t, env)
        if op == "lam":
            vs, ds, b = t.a
            sh = [len(self.rng(d, env)) for d in ds]; e = dict(env)
            out = np.zeros(sh)
            for ix in itertools.product(*[range(s) for s in sh]):
                e.update(zip(vs, ix)); out[ix] = ev(b, e)
            return out
        if op in BIND:
            v, n, b = t.a; e = dict(env); vals = []
            for i in self.rng(n, env):
                e[v] = i; vals.append(ev(b, e))
            if op == "sum":
                if all(isinstance(x, int) for x in vals): return sum(vals)
                self.mag = max(self.mag, *map(abs, vals))
                return math.fsum(vals)
            if op == "prod":
                r = 1
                for x in vals: r *= x
                return r
            if not vals: raise Undef("empty maximum")
            m = max(vals)
            if op == "max": return m
            ix = [i for i, x in enumerate(vals) if x == m]
            if any(x != m and abs(x - m) <= EPS * max(1, abs(m)) for x in vals): raise Undef("near tie")
            return ix[0] if op == "argf" else ix[-1]
        if op == "app": return self.app(t, env)
        raise Undef("term " + op)

    def cond(self, t, env):
        op = t.op
        if op == "true": return True
        if op == "false": return False
        if op in ("eq0", "ge0", "gt0"):
            x = t.a[0]; d = self.ev(x, env)
            if isinstance(d, float) and d != 0:
                sc = max(abs(self.ev(y, env)) for y in x.a) if x.op == "+" else 1.0 if x.op in ("sum", "app") else 0.0
                if abs(d) < 1e-9 * sc and not (x.op != "+" and abs(d) < 1e-100): raise Undef("near a case boundary")
            return d == 0 if op == "eq0" else d >= 0 if op == "ge0" else d > 0
        if op == "not": return not self.cond(t.a[0], env)
        if op in ("and", "or"):
            und = None
            for x in t.a:
                try: r = self.cond(x, env)
                except Undef as e: und = e; continue
                if r != (op == "and"): return r
            if und: raise und
            return op == "and"
        if op in ("exists", "forall"):
            v, n, b = t.a; e = dict(env)
            for i in self.rng(n, env):
                e[v] = i
                if self.cond(b, e) == (op == "exists"): return op == "exists"
            return op == "forall"
        if op == "v": return bool(env[t] if t in env else self.symbol(t))
        if op == "ite": return self.cond(t.a[1] if self.cond(t.a[0], env) else t.a[2], env)
        return bool(self.ev(t, env))

    def app(self, t, env):
        n = t.a[0]; ev = self.ev
        if n == "log":
            x = ev(t.a[1], env)
            if x <= 0: raise Undef("logarithm of a non-positive number")
            return math.log(x)
        if n == "exp": return math.exp(ev(t.a[1], env))
        if n == "abs": return abs(ev(t.a[1], env))
        if n == "pow":
            x, y = ev(t.a[1], env), ev(t.a[2], env)
            if x < 0 and y != int(y) or x == 0 and y < 0: raise Undef("power")
            return float(x) ** y
        if n in ("floordiv", "mod"):
            x, y = ev(t.a[1], env), ev(t.a[2], env)
            if y == 0: raise Undef("division by zero")
            return x // y if n == "floordiv" else x % y
        if n in ("FWD", "VIT"):
            P, A, B = (ev(x, env) for x in t.a[1:4]); tt, j = int(ev(t.a[4], env)), int(ev(t.a[5], env))
            tab = self.table(n, P, A, B)
            if n == "FWD" and self.prefix_pos(t) and (tab.sum(1) <= 0).any(): raise Undef("assumption")
            if not (0 <= tt < len(tab) and 0 <= j < tab.shape[1]): raise Undef("index")
            return float(tab[tt, j])
        if n == "BWD":
            A, B = (ev(x, env) for x in t.a[1:3]); tt, j = int(ev(t.a[3], env)), int(ev(t.a[4], env))
            k = ("BWD", key(A), key(B)); tab = self.appvals.get(k)
            if tab is None:
                tab = np.ones(B.shape)
                for s in range(len(B) - 2, -1, -1): tab[s] = A @ (B[s + 1] * tab[s + 1])
                self.appvals[k] = tab
            if not (0 <= tt < len(tab) and 0 <= j < tab.shape[1]): raise Undef("index")
            return float(tab[tt, j])
        if n == "CP":
            c = ev(t.a[1], env); tt = int(ev(t.a[2], env))
            if not 0 <= tt < len(c): raise Undef("index")
            return float(np.prod(c[tt:]))
        if n == "ZPREV":
            P, A, B = (ev(x, env) for x in t.a[1:4]); tt = int(ev(t.a[4], env))
            if tt == 0: return 1
            tab = self.table("FWD", P, A, B)
            if not 1 <= tt <= len(tab): raise Undef("index")
            return float(tab[tt - 1].sum())
        if n in ("INV", "LOGDET", "CHOL", "PD", "DETSIGN", "TRISOL", "EIGH"):
            if n == "TRISOL":
                L = ev(t.a[1], env); b = ev(t.a[2], env); i = int(ev(t.a[3], env))
                if np.abs(np.triu(L, 1)).max(initial=0) > 0 or (np.abs(np.diag(L)) < 1e-9).any(): raise Undef("triangular system")
                return float(np.linalg.solve(L, b)[i])
            M = ev(t.a[1], env)
            if M.ndim != 2 or M.shape[0] != M.shape[1]: raise Undef("matrix")
            if n == "EIGH":      # the lower triangle is read
                L = np.tril(M); return float(np.linalg.eigvalsh(L + np.tril(M, -1).T)[int(ev(t.a[2], env))])
            pd = M.size > 0 and np.abs(M - M.T).max() < 1e-12 * (1 + np.abs(M).max()) and np.linalg.eigvalsh(M)[0] > 1e-3
            if n == "PD":
                if not pd and np.linalg.eigvalsh((M + M.T) / 2)[0] > 0: raise Undef("not clearly indefinite")
                return bool(pd)
            if not pd: raise Undef("matrix not positive definite")
            if n == "DETSIGN": return 1
            if n == "LOGDET": return float(np.linalg.slogdet(M)[1])
            i, j = int(ev(t.a[2], env)), int(ev(t.a[3], env))
            if not (0 <= i < len(M) and 0 <= j < len(M)): raise Undef("index")
            return float((np.linalg.inv(M) if n == "INV" else np.linalg.cholesky(M))[i, j])
        if n == "COV":
            M = ev(t.a[1], env); i, j = int(ev(t.a[2], env)), int(ev(t.a[3], env))
            if M.ndim != 2 or M.shape[1] < 2 or not (0 <= i < len(M) and 0 <= j < len(M)): raise Undef("covariance")
            return float(np.atleast_2d(np.cov(M))[i, j])
        if n == "NTH":
            m = ev(t.a[1], env); j = int(ev(t.a[2], env)); w = np.nonzero(m)[0]
            if not 0 <= j < len(w): raise Undef("index")
            return int(w[j])
        if n == "SEG":
            ls = ev(t.a[1], env); r = ev(t.a[2], env); a = 0
            for s, l in enumerate(ls):
                if a <= r < a + l: return s
                a += l
            raise Undef("index")
        if n in SPECIAL: return float(SPECIAL[n](*[ev(x, env) for x in t.a[1:]]))
        if n in IT.RECDEF:
            ps, k, init, step = IT.RECDEF[n][:4]
            args = [ev(x, env) for x in t.a[1:]]; e = dict(zip(ps, args[:-1]))
            if args[-1] <= 0: return ev(init, e)
            if args[-1] > 200: raise Undef("depth")
            e[k] = args[-1] - 1
            return ev(step, e)
        if n in IT.FDEF:
            ps, body = IT.FDEF[n][:2]
            return ev(body, dict(zip(ps, [ev(x, env) for x in t.a[1:]])))
        if n in Rules.appnorm or n in OPAQUE: raise Undef("no numeric meaning: " + n)
        return self.uninterpreted(t, n, [ev(x, env) for x in t.a[1:]])

    def table(self, n, P, A, B):
        k = (n, key(P), key(A), key(B)); tab = self.appvals.get(k)
        if tab is None:
            tab = np.zeros(B.shape)
            for s in range(len(B)):
                tab[s] = (P if s == 0 else (tab[s - 1] @ A if n == "FWD" else (tab[s - 1][:, None] * A).max(0))) * B[s]
            self.appvals[k] = tab
        return tab

    def prefix_pos(self, t):
        P, A, B = t.a[1:4]; k = ("pp", P, A, B); r = self.poscache.get(k)
        if r is None: r = self.poscache[k] = self.assumed_pos(spec.Z(P, A, B, t.a[4])) or self.assumed_pos(app("ZPREV", P, A, B, t.a[4]))
        return r

    # ---------------------------------------------------------------- assumptions
    def holds(self, facts, zero=()):
        """every fact is true on the instance (integer facts first)"""
        for f in sorted(facts, key=lambda f: (f.op != "ge0", f.id)):
            if not self.cond(f, {}): return False
        for z in zero:
            z = z if isinstance(z, T) else None
            if z is not None and abs(self.ev(z, {})) > EPS: return False
        return True


def _sp(name):
    def f(*a):
        import scipy.special as s
        return getattr(s, name)(*a)
    return f


SPECIAL = {n: _sp(n) for n in ("gammaln", "digamma", "psi", "multigammaln", "gamma", "xlogy", "loggamma")}
OPAQUE = {"EIGVAL", "EIGVEC", "CHOLU", "TRISOLX", "EX"}


def instances(ctx, terms, tries=4000, budget=4.0, extra=(), salt=""):
    """instances satisfying the assumptions of ctx"""
    t1 = time.process_time() + budget
    facts = list(ctx.facts) + list(extra)
    allt = list(terms) + facts
    for s in range(tries):
        if time.process_time() > t1: return
        I = Inst((salt, s), ctx, allt); I.deadline = t1
        try:
            if not I.holds(facts, ctx.zero): continue
        except Undef: continue
        yield I


def differ(a, b, mag=0.0):
    """beyond what rounding (of summands up to mag) can explain"""
    return abs(a - b) > 1e-7 * max(abs(a), abs(b)) + EPS + 1e-11 * mag


def show_inst(I):
    return {t.a[0]: v for t, v in I.syms.items() if not t.a[0].startswith(("%b", "%l", "#"))} | {f"{k[0]}{list(k[1])}": round(v, 4) if isinstance(v, float) else v for k, v in list(I.appvals.items()) if isinstance(v, (int, float, bool)) and len(str(k)) < 60}


def refute_eq(x, y, ctx, need=2, goods=400, **kw):
    """(detail or None, number of instances on which both sides agree)"""
    bad = []; good = 0
    try: cx = [canon(x, ctx), canon(y, ctx)]
    except Exception: cx = None
    for I in instances(ctx, (x, y), **kw):
        try: a, b = I.ev(x, {}), I.ev(y, {})
        except Undef: continue
        if not differ(a, b, I.mag):
            good += 1
            if good >= goods and not bad: break
            continue
        if cx:
            try: c, d = I.ev(cx[0], {}), I.ev(cx[1], {})
            except Undef: continue
            if differ(a, c, I.mag) or differ(b, d, I.mag) or not differ(c, d, I.mag): continue      # an assumption used in normalising fails here
        bad.append((a, b, show_inst(I)))
        if len(bad) >= need: break
    if len(bad) >= need: return f"on the instance {bad[0][2]} the code gives {bad[0][0]:.9g}, the contract requires {bad[0][1]:.9g}", good
    return None, good


def refute_goal(goal, ctx, need=2, extra=(), goods=400, **kw):
    """an instance satisfying the assumptions on which the goal is false"""
    bad = []; good = 0
    for I in instances(ctx, (goal,), extra=extra, **kw):
        try: r = I.cond(goal, {})
        except Undef: continue
        if r:
            good += 1
            if good >= goods and not bad: break
            continue
        bad.append(show_inst(I))
        if len(bad) >= need: break
    if len(bad) >= need: return f"false on the instance {bad[0]}", good
    return None, good


def refute_arg(a, m, g, ctx, need=2, goods=400, **kw):
    """the index a is not a maximiser of g over range(m)"""
    j = fresh("b"); top = smax(j, m, g(j)); here = g(a); bad = []; good = 0
    for I in instances(ctx, (a, top, here), **kw):
        try:
            i = I.ev(a, {}); n = I.ev(num(m), {}); b = I.ev(top, {}); c = I.ev(here, {}) if 0 <= i < n else -1.0
        except Undef: continue
        if 0 <= i < n and not differ(b, c, I.mag):
            good += 1
            if good >= goods and not bad: break
            continue
        bad.append((i, c, b, show_inst(I)))
        if len(bad) >= need: break
    if len(bad) >= need: return f"on the instance {bad[0][3]} the code returns index {bad[0][0]} of value {bad[0][1]:.9g}, the maximum is {bad[0][2]:.9g}", good
    return None, good
