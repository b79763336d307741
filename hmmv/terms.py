"""Terms of the verification conditions: hash-consed expressions over integers, reals and
booleans with sum / product / max binders and matrix abstractions (lam)."""
from fractions import Fraction
import itertools, math

_tab = {}
_ctr = itertools.count()
BIND = ("sum", "prod", "max", "argf", "argl", "exists", "forall")


class T:
    __slots__ = ("op", "a", "sort", "id", "_fv", "_key", "__weakref__")

    def __repr__(self): return show(self)

    def __bool__(self): raise TypeError("symbolic term used as a Python boolean: " + show(self))


def mk(op, a, sort):
    k = (op, a, sort)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.sort = sort; t.id = next(_ctr); t._fv = None; t._key = None
        _tab[k] = t
    return t


def num(q):
    if isinstance(q, T): return q
    if isinstance(q, bool): return TRUE if q else FALSE
    if isinstance(q, float):
        if q == int(q) and abs(q) < 1e15: q = int(q)
        else: q = Fraction(q).limit_denominator(10 ** 6) if abs(Fraction(q).limit_denominator(10 ** 6) - Fraction(q)) < Fraction(1, 10 ** 15) * abs(Fraction(q)) else Fraction(repr(q))
    q = Fraction(q)
    return mk("c", (q,), "I" if q.denominator == 1 else "R")


TRUE = mk("true", (), "B"); FALSE = mk("false", (), "B")
ZERO = num(0); ONE = num(1)
_fresh = itertools.count()
NONNEG, POS = set(), set()   # names of symbols / apps declared >= 0, > 0


def sym(name, sort="R", sign=None):
    if sign == "pos": POS.add(name)
    elif sign == "nonneg": NONNEG.add(name)
    return mk("v", (name,), sort)


def fresh(base="k", sort="I"): return mk("v", ("%" + base + str(next(_fresh)),), sort)


def app(name, *args, sort="R"):
    if name == "abs" and len(args) == 1 and (not isinstance(args[0], T) or args[0].op == "c"): return num(abs(args[0] if not isinstance(args[0], T) else args[0].a[0]))
    return mk("app", (name,) + tuple(num(x) if not isinstance(x, T) else x for x in args), sort)


def isc(t): return t.op == "c"


def cval(t): return t.a[0]


def add(*xs):
    c = Fraction(0); rest = {}
    def put(x, k):
        nonlocal c
        if x.op == "c": c += x.a[0] * k
        elif x.op == "+":
            for y in x.a: put(y, k)
        elif x.op == "*" and x.a and x.a[0].op == "c":
            r = x.a[1:]; put(r[0] if len(r) == 1 else mk("*", r, x.sort), k * x.a[0].a[0])
        else: rest[x] = rest.get(x, 0) + k
    for x in xs: put(num(x), Fraction(1))
    out = []
    for x, k in rest.items():
        if k: out.append(x if k == 1 else _cmul(k, x))
    if c or not out: out.append(num(c))
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.id)
    return mk("+", tuple(out), "I" if all(o.sort == "I" for o in out) else "R")


def _cmul(k, x):
    if x.op == "*": return mk("*", (num(k),) + x.a, "I" if x.sort == "I" and k.denominator == 1 else "R")
    return mk("*", (num(k), x), "I" if x.sort == "I" and k.denominator == 1 else "R")


def mul(*xs):
    c = Fraction(1); rest = []
    for x in map(num, xs):
        if x.op == "c": c *= x.a[0]
        elif x.op == "*":
            for y in x.a:
                if y.op == "c": c *= y.a[0]
                else: rest.append(y)
        else: rest.append(x)
    if c == 0: return ZERO
    if not rest: return num(c)
    if len(rest) == 1 and rest[0].op == "+" and c != 1: return add(*[_cmul2(c, y) for y in rest[0].a])
    if c == 1 and len(rest) == 1: return rest[0]
    rest.sort(key=lambda t: t.id)
    if c != 1: rest = [num(c)] + rest
    return mk("*", tuple(rest), "I" if all(r.sort == "I" for r in rest) else "R")


def _cmul2(c, y): return num(c * y.a[0]) if y.op == "c" else (mul(num(c), y))


def neg(x): return mul(-1, x)


def sub(a, b): return add(a, neg(num(b)))


def pw(x, n):
    x = num(x); n = Fraction(n)
    if n == 0: return ONE
    if n == 1: return x
    if x.op == "c" and n.denominator == 1 and (x.a[0] != 0 or n > 0): return num(x.a[0] ** int(n))
    if x.op == "^": return pw(x.a[0], x.a[1] * n)
    return mk("^", (x, n), x.sort if x.sort == "I" and n.denominator == 1 and n > 0 else "R")


def div(a, b): return mul(a, pw(b, -1))


# --------------------------------------------------------------- booleans
def eq(a, b):
    a, b = num(a), num(b)
    if a is b: return TRUE
    if a.sort == "B" or b.sort == "B":
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
    d = sub(a, b)
    if d.op == "c": return TRUE if d.a[0] == 0 else FALSE
    # canonical orientation
    if _lead_neg(d): d = neg(d)
    return mk("eq0", (d,), "B")


def _lead_neg(d):
    xs = d.a if d.op == "+" else (d,)
    x = [y for y in xs if y.op != "c"][0]
    return x.op == "*" and x.a[0].op == "c" and x.a[0].a[0] < 0


def lt(a, b):
    a, b = num(a), num(b); d = sub(b, a)   # d > 0
    if d.op == "c": return TRUE if d.a[0] > 0 else FALSE
    if d.sort == "I": return mk("ge0", (sub(d, 1),), "B")
    return mk("gt0", (d,), "B")


def le(a, b):
    a, b = num(a), num(b); d = sub(b, a)
    if d.op == "c": return TRUE if d.a[0] >= 0 else FALSE
    if d.sort == "I": return mk("ge0", (d,), "B")
    return not_(mk("gt0", (neg(d),), "B"))


def not_(x):
    if x is TRUE: return FALSE
    if x is FALSE: return TRUE
    if x.op == "not": return x.a[0]
    if x.op == "ge0": return mk("ge0", (sub(-1, x.a[0]),), "B")
    if x.op == "and": return or_(*[not_(y) for y in x.a])
    if x.op == "or": return and_(*[not_(y) for y in x.a])
    if x.op == "exists": return mk("forall", (x.a[0], x.a[1], not_(x.a[2])), "B")
    if x.op == "forall": return mk("exists", (x.a[0], x.a[1], not_(x.a[2])), "B")
    return mk("not", (x,), "B")


def _absorb(s, op):
    """A or (not A and B) is A or B; A or (A and B) is A (and the duals): the simplified list, or None when nothing changes"""
    for i, y in enumerate(s):
        if y.op != op: continue
        if any(z in s for z in y.a): return s[:i] + s[i + 1:]
        k = [z for z in y.a if not_(z) not in s]
        if len(k) < len(y.a): return s[:i] + [(and_ if op == "and" else or_)(*k)] + s[i + 1:]
    return None


def and_(*xs):
    s = []
    for x in xs:
        for y in (x.a if x.op == "and" else (x,)):
            if y is FALSE: return FALSE
            if y is not TRUE and y not in s: s.append(y)
    for y in s:
        if not_(y) in s: return FALSE
    if any(y.op == "or" for y in s):
        r = _absorb(s, "or")
        if r is not None: return and_(*r)
    if not s: return TRUE
    if len(s) == 1: return s[0]
    s.sort(key=lambda t: t.id)
    return mk("and", tuple(s), "B")


def or_(*xs):
    s = []
    for x in xs:
        for y in (x.a if x.op == "or" else (x,)):
            if y is TRUE: return TRUE
            if y is not FALSE and y not in s: s.append(y)
    for y in s:
        if not_(y) in s: return TRUE
    if any(y.op == "and" for y in s):
        r = _absorb(s, "and")
        if r is not None: return or_(*r)
    if not s: return FALSE
    if len(s) == 1: return s[0]
    s.sort(key=lambda t: t.id)
    return mk("or", tuple(s), "B")


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    a, b = num(a), num(b)
    if a is b: return a
    if a.sort == "B": return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not": return ite(c.a[0], b, a)
    if a.op == "ite" and a.a[0] is c: a = a.a[1]
    if b.op == "ite" and b.a[0] is c: b = b.a[2]
    if a is b: return a
    return mk("ite", (c, a, b), "I" if a.sort == b.sort == "I" else "R")


# ---------------------------------------------------------------- binders
def binder(op, v, n, body, sort=None):
    n, body = num(n), num(body)
    if op in ("exists", "forall"):
        if body.op in ("true", "false") and op == "exists" and body is FALSE: return FALSE
        if op == "forall" and body is TRUE: return TRUE
        if n.op == "c" and n.a[0] <= 0: return FALSE if op == "exists" else TRUE
        if n.op == "c" and n.a[0] == 1: return subst(body, {v: ZERO})
        if v not in fv(body): return and_(lt(0, n), body) if op == "exists" else or_(le(n, 0), body)
        dis, con = ("or", and_) if op == "exists" else ("and", or_)
        if body.op == dis: return (or_ if op == "exists" else and_)(*[binder(op, v, n, x) for x in body.a])
        if body.op == ("and" if op == "exists" else "or"):
            out = [x for x in body.a if v not in fv(x)]
            if out: return con(*out, binder(op, v, n, con(*[x for x in body.a if v in fv(x)])))
        return mk(op, (v, n, body), "B")
    if op in ("sum", "prod", "max", "argf", "argl") and n.op == "c" and n.a[0] <= 4:
        k = int(n.a[0])
        if op == "sum": return add(ZERO, *[subst(body, {v: num(i)}) for i in range(k)])
        if op == "prod": return mul(ONE, *[subst(body, {v: num(i)}) for i in range(k)])
        if k == 1: return subst(body, {v: ZERO}) if op == "max" else ZERO
    if op == "sum":
        if body is ZERO: return ZERO
        if v not in fv(body): return mul(n, body)
    if op == "prod" and body is ONE: return ONE
    if op == "max" and v not in fv(body): return body
    return mk(op, (v, n, body), "I" if op in ("argf", "argl") else body.sort)


def ssum(v, n, b): return binder("sum", v, n, b)
def sprod(v, n, b): return binder("prod", v, n, b)
def smax(v, n, b): return binder("max", v, n, b)


def lam(vs, dims, body):
    return mk("lam", (tuple(vs), tuple(num(d) for d in dims), num(body)), "L")


def lam_at(l, *idx):
    vs, dims, body = l.a
    return subst(body, dict(zip(vs, [num(i) for i in idx])))


def log(x):
    x = num(x)
    if x is ONE: return ZERO
    if x.op == "ite" and any(y.op == "app" and y.a[0] == "exp" for y in x.a[1:]): return ite(x.a[0], log(x.a[1]), log(x.a[2]))
    if x.op == "app" and x.a[0] == "exp": return x.a[1]
    return app("log", x)


def exp(x):
    x = num(x)
    if x is ZERO: return ONE
    if x.op == "ite": return ite(x.a[0], exp(x.a[1]), exp(x.a[2]))
    if x.op == "app" and x.a[0] == "log": return x.a[1]
    return app("exp", x)


def sqrt(x): return pw(x, Fraction(1, 2))


# ------------------------------------------------------------- traversal
def kids(t):
    if t.op in ("c", "v", "true", "false"): return ()
    if t.op == "app": return t.a[1:]
    if t.op == "^": return (t.a[0],)
    if t.op == "lam": return t.a[1] + (t.a[2],)
    if t.op in BIND: return (t.a[1], t.a[2])
    return t.a


_E = frozenset()


def fv(t):
    if t._fv is not None: return t._fv
    if t.op == "v": r = frozenset((t,))
    elif t.op in ("c", "true", "false"): r = _E
    elif t.op == "lam": r = (fv(t.a[2]) - frozenset(t.a[0])).union(*[fv(d) for d in t.a[1]])
    elif t.op in BIND: r = (fv(t.a[2]) - {t.a[0]}) | fv(t.a[1])
    else: r = frozenset().union(*[fv(k) for k in kids(t)])
    t._fv = r
    return r


def rebuild(t, ks):
    op = t.op
    if op == "+": return add(*ks)
    if op == "*": return mul(*ks)
    if op == "^": return pw(ks[0], t.a[1])
    if op == "eq0": return eq(ks[0], 0)
    if op == "ge0": return le(0, ks[0])
    if op == "gt0": return lt(0, ks[0]) if ks[0].sort != "I" else le(1, ks[0])
    if op == "not": return not_(ks[0])
    if op == "and": return and_(*ks)
    if op == "or": return or_(*ks)
    if op == "ite": return ite(*ks)
    if op == "app":
        if t.a[0] == "log": return log(ks[0])
        if t.a[0] == "exp": return exp(ks[0])
        return mk("app", (t.a[0],) + tuple(ks), t.sort)
    raise AssertionError(op)


def subst(t, m, memo=None):
    """capture-avoiding substitution of symbols (or arbitrary subterms) by terms"""
    if not m: return t
    keys = frozenset(m)
    allsym = all(k.op == "v" for k in m)
    rfv = frozenset().union(*[fv(num(v)) for v in m.values()])
    memo = {}

    def go(t):
        if t in m: return num(m[t])
        if t.op in ("c", "v", "true", "false"): return t
        if allsym and not (fv(t) & keys): return t
        r = memo.get(t)
        if r is not None: return r
        if t.op == "lam":
            vs, dims, body = t.a
            if any(v in rfv or v in keys for v in vs):
                nv = tuple(fresh("l", v.sort) for v in vs); body = subst(body, dict(zip(vs, nv))); vs = nv
            r = mk("lam", (vs, tuple(go(d) for d in dims), go(body)), "L")
        elif t.op in BIND:
            v, n, body = t.a
            if v in rfv or v in keys:
                nv = fresh("b"); body = subst(body, {v: nv}); v = nv
            r = binder(t.op, v, go(n), go(body))
        else: r = rebuild(t, [go(k) for k in kids(t)])
        memo[t] = r
        return r
    return go(t)


def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); yield x
        st.extend(kids(x))


def mentions(t, name):
    return any(x.op == "app" and x.a[0] == name for x in walk(t))


def show(t, d=0):
    if d > 12: return "..."
    s = lambda x: show(x, d + 1)
    if t.op == "c": return str(t.a[0])
    if t.op == "v": return t.a[0]
    if t.op in ("true", "false"): return t.op
    if t.op == "app": return t.a[0] + "(" + ",".join(map(s, t.a[1:])) + ")"
    if t.op == "+": return "(" + " + ".join(map(s, t.a)) + ")"
    if t.op == "*": return "*".join(map(s, t.a))
    if t.op == "^": return f"{s(t.a[0])}^{t.a[1]}"
    if t.op == "lam": return "<" + ",".join(v.a[0] for v in t.a[0]) + ":" + ",".join(map(s, t.a[1])) + "." + s(t.a[2]) + ">"
    if t.op in BIND: return f"{t.op}[{t.a[0].a[0]}<{s(t.a[1])}]({s(t.a[2])})"
    if t.op == "ite": return f"if({s(t.a[0])};{s(t.a[1])};{s(t.a[2])})"
    if t.op == "eq0": return f"[{s(t.a[0])}=0]"
    if t.op == "ge0": return f"[{s(t.a[0])}>=0]"
    if t.op == "gt0": return f"[{s(t.a[0])}>0]"
    return t.op + "(" + ",".join(map(s, t.a)) + ")"
