"""Symbolic interpreter for the Python subset hmmlearn is written in (and for the translated C++ kernels).
Data are symbolic (terms), configuration is concrete; loops over symbolic ranges are summarised by proved
closed forms or, failing that, by recursively defined functions."""
import ast, os, sys, time
from .terms import *
from .terms import mk
from .nf import Ctx, Prover, Rules, expand, canon, sign, Limit, collect, toterm
from .val import *

sys.setrecursionlimit(20000)


class Oracle:
    def __init__(self, prefix): self.prefix = prefix; self.i = 0; self.conds = []; self.alts = []


class SymIter:
    def __init__(self, n, item): self.n = n; self.item = item


class RangeV:
    def __init__(self, a, b, st): self.a = a; self.b = b; self.st = st


class Module:
    def __init__(self, name, tree): self.name = name; self.tree = tree; self.ns = {}


class Poison:
    def __init__(self, why): self.why = why


class ExcClass:
    def __init__(self, name): self.name = name


class SuperV:
    def __init__(self, cls, self_): self.cls = cls; self.self_ = self_


class Loc:
    pass


RECDEF = {}   # name -> (params, k, init, step, sort)   R(params, 0) = init, R(params, k+1) = step(k)
FDEF = {}     # name -> (params, body): function defined by (well-founded) recursion


def _unfold_rec(name):
    def f(args, ctx, probe):
        ps, k, init, step = RECDEF[name][:4]
        ke = args[-1]
        d0 = ctx.decide(le(ke, 0))
        if probe:
            d1 = ctx.decide(le(1, ke))
            return None if d0 is None and d1 is None else tuple(args)
        m = dict(zip(ps, args[:-1]))
        if d0 is True: return subst(init, m)
        m[k] = sub(ke, 1)
        return subst(step, m)
    return f


def _unfold_f(name):
    def f(args, ctx, probe):
        ps, body = FDEF[name][:2]
        if probe: return tuple(args)
        return subst(body, dict(zip(ps, args)))
    return f


def subst_apps(t, fns, memo=None):
    """replaces app(name, args) by fns[name](*args) everywhere"""
    memo = {} if memo is None else memo

    def go(t):
        r = memo.get(t)
        if r is not None: return r
        if t.op in ("c", "v", "true", "false"): return t
        if t.op == "lam": r = mk("lam", (t.a[0], tuple(go(d) for d in t.a[1]), go(t.a[2])), "L")
        elif t.op in BIND: r = binder(t.op, t.a[0], go(t.a[1]), go(t.a[2]))
        elif t.op == "app" and t.a[0] in fns: r = fns[t.a[0]](*[go(x) for x in t.a[1:]])
        else: r = rebuild(t, [go(x) for x in kids(t)])
        memo[t] = r
        return r
    return go(t)


def names_in(t, names):
    out = set()
    for x in walk(t):
        if x.op == "app" and x.a[0] in names: out.add(x.a[0])
    return out


def apps_of(t, name): return [x for x in walk(t) if x.op == "app" and x.a[0] == name]


def b_cut(i):
    """x[a:b] where the bounds are not both literals: the ranges used by the code are ordered (slices_in_range contract)"""
    return not (isinstance(i.start, int) and isinstance(i.stop, int))


class Interp:
    def __init__(self, ctx=None):
        self.heap = {}; self.ctx = ctx or Ctx(); self.oracles = []; self.obls = []; self.wlog = []
        self.contracts = {}; self.used = set(); self.mods = {}; self.depth = 0; self.cands = []; self.paths = 0
        self.trust = set(); self.assume = []; self.consts = {}; self.readlog = None; self.cxx = {}
        self.deadline = None; self.notes = []; self.loopk = []; self.statics = set(); self.static_depth = 0; self.written = set()

    # ------------------------------------------------------------------ heap
    def new(self, h, state):
        self.heap[h] = state
        if self.static_depth: self.statics.add(h)
        return h

    def log(self, h, key):
        if h in self.statics and not self.static_depth: raise Unsupported("a module-level object, class attribute or default argument is modified: state shared between calls")
        for w in self.wlog: w.setdefault((h, key), None)

    def setk(self, h, key, v):
        self.heap[h][key] = v; self.log(h, key)

    def sets(self, h, state):
        self.heap[h] = state; self.log(h, None)

    def snap(self): return {h: (dict(s) if isinstance(s, dict) else s) for h, s in self.heap.items()}

    def restore(self, s): self.heap = {h: (dict(x) if isinstance(x, dict) else x) for h, x in s.items()}

    # ---------------------------------------------------------------- arrays
    def arr(self, shape, fn, dtype="f", owner=None):
        shape = tuple(num(d) for d in shape)
        c = Cell(shape, owner); vs = tuple(fresh("x") for _ in shape)
        self.heap[c] = (vs, fn(*vs))
        return Arr(c, shape, tuple(("ax", i, ZERO, 1) for i in range(len(shape))), dtype)

    def bidx(self, a, idx):
        out = []
        for s in a.spec:
            if s[0] == "fix": out.append(s[1])
            else: out.append(add(s[2], idx[s[1]]) if s[3] == 1 else sub(s[2], idx[s[1]]) if s[3] == -1 else add(s[2], mul(s[3], idx[s[1]])))
        return out

    def at(self, a, idx):
        vs, body = self.heap[a.cell]
        if isinstance(body, Poison): raise Unsupported(body.why)
        m = dict(zip(vs, self.bidx(a, [num(i) for i in idx])))
        if isinstance(body, LogV): return LogV(subst(body.e, m))
        return subst(body, m) if isinstance(body, T) else body

    def whole(self, a):
        return len(a.spec) == len(a.shape) == len(a.cell.shape) and all(s == ("ax", i, ZERO, 1) and a.shape[i] is a.cell.shape[i] for i, s in enumerate(a.spec))

    def store(self, a, val, mask=None, closed=False):
        """writes val (scalar or Arr, broadcast) into the view a (where mask, an Arr, holds)"""
        vs, body = self.heap[a.cell]
        if getattr(a.cell, "maybe", None) is not None: raise Unsupported("a value is stored in an array that may be a parameter's")
        if getattr(a.cell, "anytype", False) and not closed and not (isinstance(val, int) or isinstance(val, Arr) and val.dtype in "ib" or isinstance(val, T) and (val.sort == "I" or val.op == "c" and val.a[0].denominator == 1)):
            raise Unsupported("a value is stored in an array that may be of an integer type")
        conds = []; vi = [ZERO] * len(a.shape)
        seen = set()
        for d, s in enumerate(a.spec):
            if s[0] == "fix": conds.append(eq(vs[d], s[1])); continue
            if s[1] in seen: raise Unsupported("write through a diagonal view")
            seen.add(s[1])
            i = sub(vs[d], s[2]) if s[3] == 1 else sub(s[2], vs[d]) if s[3] == -1 else None
            if i is None: raise Unsupported("write through a strided view")
            vi[s[1]] = i
            if not (s[2] is ZERO and s[3] == 1 and self.deq(a.shape[s[1]], a.cell.shape[d])): conds += [le(0, i), lt(i, a.shape[s[1]])]
        if isinstance(val, Arr):
            val = self.bcast(val, a.shape)
            v = self.at(val, vi)
        else: v = val
        if mask is not None:
            m = self.at(self.bcast(mask, a.shape), vi); conds.append(m if isinstance(m, T) else tm(m))
        if a.dtype == "i" and isinstance(v, T) and v.sort == "B": v = num01(v)
        c = and_(*conds)
        old = body
        if isinstance(old, Poison):
            if c is not TRUE: raise Unsupported("partial write of an array with unknown content: " + old.why)
            nb = v
        elif c is TRUE: nb = v
        else: nb = s_ite(c, v, old)
        self.sets(a.cell, (vs, nb))

    def deq(self, a, b):
        a, b = num(a), num(b)
        return a is b or self.ctx.decide(eq(a, b)) is True

    def bshape(self, *shapes):
        n = max(len(s) for s in shapes); out = []
        for i in range(n):
            d = ONE
            for s in shapes:
                j = i - (n - len(s))
                if j < 0: continue
                e = num(s[j])
                if e is ONE or e is d: continue
                if d is ONE: d = e
                elif self.deq(d, e): pass
                elif self.ctx.decide(eq(d, e)) is False and d.op == "c" and e.op == "c": raise PyExc("ValueError", ("operands could not be broadcast",))
                else: raise Unsupported(f"broadcast of {show(d)} and {show(e)}")
            out.append(d)
        return tuple(out)

    def bcast(self, a, shape):
        """read view of a broadcast to shape"""
        if len(a.shape) == len(shape) and all(num(x) is num(y) for x, y in zip(a.shape, shape)): return a
        off = len(shape) - len(a.shape)
        if off < 0:
            if all(num(d) is ONE for d in a.shape[:-off]):
                sp = [("fix", ZERO if s[3] == 1 else s[2]) if s[0] == "ax" and s[1] < -off else (("ax", s[1] + off) + s[2:] if s[0] == "ax" else s) for s in a.spec]
                return self.bcast(Arr(a.cell, a.shape[-off:], tuple(sp), a.dtype), shape)
            raise Unsupported("broadcast to fewer dimensions")
        for i, d in enumerate(a.shape):
            if num(d) is not ONE and not self.deq(d, shape[i + off]): raise Unsupported(f"broadcast {[show(num(d)) for d in a.shape]} to {[show(num(d)) for d in shape]}")
        sp = []
        for s in a.spec:
            if s[0] == "fix": sp.append(s)
            elif num(a.shape[s[1]]) is ONE: sp.append(("fix", s[2]))
            else: sp.append(("ax", s[1] + off, s[2], s[3]))
        return Arr(a.cell, tuple(num(d) for d in shape), tuple(sp), a.dtype)

    def ew(self, fn, *xs, dtype=None):
        """elementwise operation with broadcasting; scalars if no array is involved"""
        xs = [self.asarr(x) if isinstance(x, (ListV, tuple, Seq)) else x for x in xs]
        ars = [x for x in xs if isinstance(x, Arr)]
        if not ars: return fn(*xs)
        shape = self.bshape(*[a.shape for a in ars])
        bs = [self.bcast(x, shape) if isinstance(x, Arr) else x for x in xs]
        if dtype is None:
            dtype = "i" if all((isinstance(x, Arr) and x.dtype == "i") or isinstance(x, int) or (isinstance(x, T) and x.sort == "I") for x in xs) else "f"
        if len(shape) == 0: return fn(*[self.at(x, ()) if isinstance(x, Arr) else x for x in bs])
        r = self.arr(shape, lambda *ix: fn(*[self.at(x, ix) if isinstance(x, Arr) else x for x in bs]), dtype)
        # the type is open (integer or real) where it is for every operand
        if dtype == "f" and fn.__name__ in self.CLOSED and all(x.cell.__dict__.get("anytype") or x.dtype in "ib" if isinstance(x, Arr) else isinstance(x, int) or isinstance(x, T) and x.op == "v" for x in xs): r.cell.anytype = True; r.cell.srcs = {x.cell for x in ars}
        return r
    CLOSED = {"s_add", "s_sub", "s_mul", "s_neg", "s_abs", "s_pow", "s_max", "s_min", "s_square"}

    def scal(self, v):
        if isinstance(v, Arr) and v.ndim == 0: return self.at(v, ())
        return v

    def rows(self, a, lo, hi):
        """view of a[lo:hi] for bounds that are in range"""
        sp = tuple(("ax", 0, add(s[2], lo) if s[3] == 1 else sub(s[2], lo), s[3]) if s[0] == "ax" and s[1] == 0 else s for s in a.spec)
        return Arr(a.cell, (canon(sub(hi, lo), self.ctx),) + tuple(a.shape[1:]), sp, a.dtype)

    def copy(self, a, dtype=None):
        r = self.arr(a.shape, lambda *ix: self.at(a, ix), dtype or a.dtype)
        if dtype is None and getattr(a.cell, "anytype", False): r.cell.anytype = True
        return r

    def asarr(self, v, dtype=None):
        if isinstance(v, Arr): return v
        if isscal(v): return self.arr((), lambda: v, "f")
        if isinstance(v, (ListV, tuple, list, Seq, SymIter)):
            seq = self.seq(v)
            if isinstance(seq, Seq): return self.stackseq(seq)
            items = [self.asarr(x) if not isscal(x) else x for x in seq]
            if not items: return self.arr((ZERO,), lambda i: ZERO)
            return self.stack(items)
        raise Unsupported("array from %r" % (v,))

    def stack(self, items):
        if len(items) == 1 and not isinstance(items[0], Arr): return self.arr((1,), lambda i: items[0] if not isnum(items[0]) else num(items[0]))
        shape = items[0].shape if isinstance(items[0], Arr) else ()
        for x in items[1:]:
            s2 = x.shape if isinstance(x, Arr) else ()
            if len(s2) != len(shape) or not all(self.deq(a, b) for a, b in zip(shape, s2)): raise Unsupported("ragged array")

        def f(i, *ix):
            r = None
            for j, x in reversed(list(enumerate(items))):
                v = self.at(x, ix) if isinstance(x, Arr) else x
                r = v if r is None else s_ite(eq(i, j), v, r)
            return r if not isnum(r) else num(r)
        return self.arr((len(items),) + tuple(shape), f)

    def stackseq(self, seq):
        parts = seq.parts
        if len(parts) == 1 and parts[0][0] == "many":
            _, n, k, v = parts[0]
            if isscal(v): return self.arr((n,), lambda i: self.vsub(v, {k: i}), "i" if isinstance(v, T) and v.sort == "I" else "f")
            v = self.asarr(v)
            return self.arr((n,) + v.shape, lambda i, *ix: self.vsub(self.at(v, ix), {k: i}), v.dtype)
        # one(s) followed by a family
        n = ZERO; fs = []
        for p in parts:
            if p[0] == "one": fs.append((n, ONE, lambda i, ix, v=p[1], o=n: self.at(v, ix) if isinstance(v, Arr) else v)); n = add(n, 1)
            else:
                fs.append((n, p[1], lambda i, ix, v=p[3], k=p[2], o=n: self.vsub(self.at(v, ix) if isinstance(v, Arr) else v, {k: sub(i, o)}))); n = add(n, p[1])
        v0 = next(p[1] if p[0] == "one" else p[3] for p in parts)
        sh = v0.shape if isinstance(v0, Arr) else ()

        def f(i, *ix):
            r = None
            for o, m, g in reversed(fs):
                v = g(i, ix)
                r = v if r is None else s_ite(lt(i, add(o, m)), v, r)
            return r if not isnum(r) else num(r)
        return self.arr((n,) + tuple(sh), f)

    def vsub(self, v, m):
        """substitutes in a value (arrays are copied)"""
        if isinstance(v, T): return subst(v, m)
        if isinstance(v, LogV): return LogV(subst(v.e, m))
        if isinstance(v, tuple): return tuple(self.vsub(x, m) for x in v)
        if isinstance(v, Arr):
            vs, body = self.heap[v.cell]
            sp = tuple(("fix", subst(s[1], m)) if s[0] == "fix" else (s[0], s[1], subst(num(s[2]), m), s[3]) for s in v.spec)
            nb = self.vsub(body, m) if not isinstance(body, Poison) else body
            sh = tuple(subst(num(d), m) for d in v.shape)
            if nb is body and sh == v.shape and sp == v.spec: return v
            if nb is body: return Arr(v.cell, sh, sp, v.dtype)
            c = Cell(tuple(subst(num(d), m) for d in v.cell.shape), v.cell.owner)
            self.heap[c] = (vs, nb)
            return Arr(c, sh, sp, v.dtype)
        if isinstance(v, ListV): return self.new(ListV(), self.vsub(self.heap[v], m))
        if isinstance(v, Seq): return Seq([("one", self.vsub(p[1], m)) if p[0] == "one" else ("many", subst(num(p[1]), m), p[2], self.vsub(p[3], m)) for p in v.parts])
        return v

    # ------------------------------------------------------------- branching
    def branch(self, c):
        if isinstance(c, bool): return c
        if not isinstance(c, T): return bool(c)
        d = self.ctx.decide(c)
        if d is None:
            for f in self.assume:
                d = f(c, self)
                if d is not None: break
        if d is not None: return d
        if not self.oracles: raise Unsupported("undecided condition " + show(c)[:200])
        o = self.oracles[-1]
        if o.i < len(o.prefix): v = o.prefix[o.i]
        else: v = True; o.alts.append(len(o.conds))
        o.i += 1; cc = c if v else not_(c)
        if o.i > 40: raise Unsupported("too many branches")
        o.conds.append((cc, v)); self.ctx = self.ctx.extend(cc)
        return v

    def explore(self, thunk, limit=64):
        base = self.snap(); ctx0 = self.ctx; stack = [[]]; out = []
        wl = self.wlog; no = len(self.obls)
        while stack:
            pre = stack.pop()
            if self.deadline and time.process_time() > self.deadline: raise Unsupported("time limit")
            self.restore(base); self.ctx = ctx0; o = Oracle(pre); self.oracles.append(o)
            try:
                try: r = ("ok", thunk())
                except Cont: r = ("ok", None)
                except Brk: r = ("brk", None)
                except Ret as e: r = ("ret", e.v)
                except PyExc as e: r = ("exc", e)
            finally: self.oracles.pop()
            self.paths += 1
            if not o.conds or self.ctx.consistent(): out.append((and_(*[c for c, _ in o.conds]), r[0], r[1], self.snap(), self.ctx))
            for i in o.alts: stack.append([v for _, v in o.conds[:i]] + [False])
            if len(out) > limit: raise Unsupported("too many paths")
        self.restore(base); self.ctx = ctx0
        return out

    # --------------------------------------------------------------- truthiness
    def truth(self, v):
        if v is None: return False
        if isinstance(v, bool): return v
        if isinstance(v, (int, float, str, tuple, list)): return bool(v)
        if isinstance(v, T): return self.branch(v if v.sort == "B" else not_(eq(v, 0)))
        if isinstance(v, LogV): return self.branch(not_(eq(v.e, 1)))
        if isinstance(v, Arr):
            if v.ndim == 0: return self.truth(self.at(v, ()))
            if all(d is ONE for d in v.shape): return self.truth(self.at(v, (ZERO,) * v.ndim))
            raise Unsupported("truth value of an array")
        if isinstance(v, ListV):
            s = self.heap[v]
            if isinstance(s, tuple): return bool(s)
            n = s.length()
            return self.branch(lt(0, num(n)))
        if isinstance(v, DictV): return bool(self.heap[v])
        if isinstance(v, (FuncV, BoundM, Builtin, ClassV, Obj, Opaque, ModV)): return True
        raise Unsupported("truth value of %r" % (v,))

    def seq(self, v):
        """concrete python list or Seq"""
        if isinstance(v, (list, tuple)): return list(v)
        if isinstance(v, Seq): return v
        if isinstance(v, ListV):
            s = self.heap[v]
            return list(s) if isinstance(s, tuple) else s
        if isinstance(v, (str, frozenset)): return list(v)
        if isinstance(v, DictV): return list(self.heap[v].keys())
        it = self.iterate(v)
        if isinstance(it, list): return it
        k = fresh("s")
        return Seq([("many", it.n, k, it.item(k))])

    def iterate(self, v):
        """list of items or SymIter"""
        if isinstance(v, SymIter): return v
        if isinstance(v, (list, tuple, str, frozenset)): return list(v)
        if isinstance(v, RangeV):
            a, b, st = v.a, v.b, v.st
            if all(isinstance(x, int) for x in (a, b, st)): 
                if abs(b - a) > 200: raise Unsupported("long concrete loop")
                return list(range(a, b, st))
            if st == 1:
                n = s_sub(b, a)
                return SymIter(nt(n), lambda k: s_add(a, k))
            if st == -1: return SymIter(nt(s_sub(a, b)), lambda k: s_sub(a, k))
            raise Unsupported("range step")
        if isinstance(v, Arr):
            if v.ndim == 0: raise PyExc("TypeError", ("iteration over a 0-d array",))
            n = num(v.shape[0])
            if n.op == "c" and n.a[0] <= 6: return [self.index(v, (int(i),)) for i in range(int(n.a[0]))]
            return SymIter(n, lambda k: self.index(v, (k,)))
        if isinstance(v, ListV):
            s = self.heap[v]
            if isinstance(s, tuple): return list(s)
            v = s
        if isinstance(v, Seq):
            if all(p[0] == "one" for p in v.parts): return [p[1] for p in v.parts]
            if len(v.parts) == 1:
                _, n, k, t = v.parts[0]
                return SymIter(num(n), lambda i: self.vsub(t, {k: num(i)}))
            raise Unsupported("iteration over a mixed sequence")
        if isinstance(v, DictV): return list(self.heap[v].keys())
        raise Unsupported("iteration over %r" % (v,))

    def length(self, v):
        if isinstance(v, Arr):
            if v.ndim == 0: raise PyExc("TypeError", ("len() of unsized object",))
            return simp0(num(v.shape[0]))
        if isinstance(v, ListV): v = self.heap[v]
        if isinstance(v, Seq): return simp0(num(v.length())) if not isinstance(v.length(), int) else v.length()
        if isinstance(v, (str, tuple, list, frozenset)): return len(v)
        if isinstance(v, DictV): return len(self.heap[v])
        if isinstance(v, SymIter): return v.n
        raise Unsupported("len of %r" % (v,))

    # ----------------------------------------------------------------- indexing
    def nidx(self, i, d):
        """normalises an integer index on an axis of length d"""
        if isinstance(i, Arr) and i.ndim == 0: i = self.at(i, ())
        if isinstance(i, bool): raise Unsupported("boolean index")
        if isinstance(i, int):
            return num(i) if i >= 0 else add(d, i)
        if isinstance(i, T):
            if self.branch(le(num(d), i)): raise PyExc("IndexError", ("index out of bounds",))
            if self.ctx.decide(le(0, i)) is True: return i
            if self.ctx.decide(lt(i, 0)) is True: return add(d, i)
            if all(f(i) for f in getattr(self, "nonneg_idx", ())) and getattr(self, "nonneg_idx", ()): return i
            raise Unsupported("index of unknown sign " + show(i)[:120])
        raise Unsupported("index %r" % (i,))

    def index(self, a, idx):
        """basic / advanced indexing of an array; returns a view (basic) or a copy"""
        if not isinstance(idx, tuple): idx = (idx,)
        idx = tuple(self.asarr(i) if isinstance(i, ListV) else i for i in idx)
        if any(isinstance(i, Arr) and i.ndim >= 1 for i in idx): return self.adv(a, idx)
        nreal = sum(1 for i in idx if i is not None and i is not Ellipsis)
        if Ellipsis in [i for i in idx if not isinstance(i, (T, Arr))]:
            e = [j for j, i in enumerate(idx) if i is Ellipsis][0]
            idx = idx[:e] + (slice(None),) * (a.ndim - nreal) + idx[e + 1:]
        else: idx = idx + (slice(None),) * (a.ndim - nreal)
        if sum(1 for i in idx if i is not None) > a.ndim: raise PyExc("IndexError", ("too many indices",))
        amap = {}; shape = []; ax = 0
        for i in idx:
            if i is None: shape.append(ONE); continue
            d = num(a.shape[ax])
            if isinstance(i, slice):
                st = i.step
                if st not in (None, 1, -1): raise Unsupported("slice step")
                if st == -1:
                    if i.start is not None or i.stop is not None: raise Unsupported("reversed slice with bounds")
                    amap[ax] = ("ax", len(shape), sub(d, 1), -1); shape.append(d)
                else:
                    lo = ZERO if i.start is None else self.sbound(i.start, d); hi = d if i.stop is None else self.sbound(i.stop, d)
                    w_ = sub(hi, lo)
                    amap[ax] = ("ax", len(shape), lo, 1); shape.append(w_ if lo is ZERO or hi is d or self.ctx.decide(le(lo, hi)) is True or b_cut(i) else ite(le(0, w_), w_, ZERO))
            else:
                amap[ax] = ("fix", self.nidx(i, d))
            ax += 1
        sp = []
        for s in a.spec:
            if s[0] == "fix": sp.append(s); continue
            m = amap[s[1]]
            if m[0] == "fix": sp.append(("fix", add(s[2], mul(s[3], m[1]))))
            else: sp.append(("ax", m[1], add(s[2], mul(s[3], m[2])), s[3] * m[3]))
        r = Arr(a.cell, shape, tuple(sp), a.dtype)
        return self.at(r, ()) if not shape else r

    def sbound(self, b, d):
        b = self.scal(b)
        if isinstance(b, int):
            if b < 0:
                r = add(d, b); return r if self.ctx.decide(le(0, r)) is True else ite(le(0, r), r, ZERO)
            if b == 0: return ZERO
            r = num(b)
            if self.ctx.decide(le(r, d)) is True: return r
            return ite(le(r, d), r, d)
        b = nt(b)
        if self.ctx.decide(le(0, b)) is True or b.op == "sum":
            if self.ctx.decide(le(b, d)) is True or getattr(self, "slices_in_range", False): return b
            raise Unsupported("slice bound " + show(b)[:100])
        raise Unsupported("slice bound of unknown sign " + show(b)[:100])

    def adv(self, a, idx):
        if len(idx) == 1 and idx[0].dtype == "b":
            if idx[0].ndim != 1 or not self.deq(idx[0].shape[0], a.shape[0]): raise Unsupported("boolean mask selection")
            from .npm import np_where
            idx = tuple(np_where(self, idx[0]))
        nreal = sum(1 for i in idx if i is not None and i is not Ellipsis)
        if any(i is Ellipsis for i in idx):
            e = [j for j, i in enumerate(idx) if i is Ellipsis][0]
            idx = idx[:e] + (slice(None),) * (a.ndim - nreal) + idx[e + 1:]
        idx = idx + (slice(None),) * (a.ndim - sum(1 for i in idx if i is not None))
        if any(i is None for i in idx): raise Unsupported("newaxis with array index")
        pos = [j for j, i in enumerate(idx) if not isinstance(i, slice)]
        if pos != list(range(pos[0], pos[0] + len(pos))): raise Unsupported("separated array indices")
        ars = [idx[j] for j in pos]
        sh = self.bshape(*[x.shape for x in ars if isinstance(x, Arr)])
        for x in ars:
            if isinstance(x, Arr) and x.dtype == "b": raise Unsupported("boolean mask selection")
        for j, i in enumerate(idx):
            if isinstance(i, slice) and i != slice(None): raise Unsupported("slice with array index")
        pre = [a.shape[j] for j in range(pos[0])]; post = [a.shape[j] for j in range(pos[-1] + 1, a.ndim)]
        bs = [self.bcast(x, sh) if isinstance(x, Arr) else x for x in ars]
        wrap = set()
        for j, x in enumerate(bs):          # IndexError of an index out of range, wrap-around of negative ones
            if not isinstance(x, Arr): continue
            d = num(a.shape[pos[j]]); qs = [fresh("q") for _ in sh]; v = nt(self.at(x, qs)); c0 = self.ctx
            inb = c0.extend(*[c for q, n in zip(qs, sh) for c in (le(0, q), lt(q, num(n)))])
            if inb.decide(le(0, v)) is not True: wrap.add(j)
            for bad in ((le(d, v),) if j not in wrap else (le(d, v), lt(v, neg(d)))):
                if inb.decide(bad) is False: continue
                e = bad
                for q, n in reversed(list(zip(qs, sh))): e = binder("exists", q, num(n), e)
                if self.branch(e): raise PyExc("IndexError", ("index out of bounds",))

        def ixval(j, x, m):
            v = nt(self.at(x, m))
            return ite(lt(v, 0), add(num(a.shape[pos[j]]), v), v) if j in wrap else v

        def f(*ix):
            p = ix[:len(pre)]; m = ix[len(pre):len(pre) + len(sh)]; q = ix[len(pre) + len(sh):]
            mid = [ixval(j, x, m) if isinstance(x, Arr) else self.nidx(x, a.shape[pos[j]]) for j, x in enumerate(bs)]
            return self.at(a, list(p) + mid + list(q))
        return self.arr(tuple(pre) + tuple(sh) + tuple(post), f, a.dtype)

    def setitem(self, a, idx, val):
        if isinstance(a, Arr):
            if not isinstance(idx, tuple): idx = (idx,)
            val = self.asarr(val) if isinstance(val, (ListV, Seq, tuple)) else val
            if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].dtype == "b":
                if isinstance(val, Arr): raise Unsupported("masked store of an array")
                return self.store(a if idx[0].ndim == a.ndim else a, val, mask=idx[0] if idx[0].ndim == a.ndim else self.index(idx[0], (Ellipsis,) + (None,) * (a.ndim - idx[0].ndim)))
            if any(isinstance(i, Arr) and i.ndim for i in idx): raise Unsupported("store through an index array")
            full = [i for i in idx if i is not None and i is not Ellipsis]
            if len(full) == a.ndim and not any(isinstance(i, slice) for i in full) and Ellipsis not in idx:
                sp = []
                fx = [self.nidx(i, a.shape[j]) for j, i in enumerate(full)]
                v = Arr(a.cell, (), tuple(("fix", x) for x in self.bidx(a, fx)), a.dtype)
                return self.store(v, self.scal(val) if not isinstance(val, Arr) or val.ndim == 0 else val)
            v = self.index(a, idx)
            return self.store(v, val)
        if isinstance(a, DictV): return self.setk(a, idx, val)
        if isinstance(a, ListV):
            s = self.heap[a]
            if isinstance(s, tuple) and isinstance(idx, int): return self.sets(a, s[:idx % len(s)] + (val,) + s[idx % len(s) + 1:])
        raise Unsupported("item assignment on %r" % (a,))

    def getitem(self, a, idx):
        if isinstance(a, Arr): return self.index(a, idx)
        if isinstance(a, DictV):
            d = self.heap[a]
            if isinstance(idx, (str, int)):
                if idx in d: return d[idx]
                raise PyExc("KeyError", (idx,))
            raise Unsupported("dict key")
        if isinstance(a, (tuple, str)):
            if isinstance(idx, (int, slice)): return a[idx]
        if isinstance(a, list): a = tuple(a); return a[idx]
        if isinstance(a, ListV) or isinstance(a, Seq):
            s = self.heap[a] if isinstance(a, ListV) else a
            if isinstance(s, tuple) and isinstance(idx, slice): return self.new(ListV(), s[idx])
            if isinstance(s, tuple) and isinstance(idx, int): return s[idx]
            if isinstance(s, Seq):
                if isinstance(idx, slice) and idx.start is None and idx.stop == -1:
                    ps = list(s.parts)
                    if ps[-1][0] == "one": return Seq(ps[:-1])
                    return Seq(ps[:-1] + [("many", sub(num(ps[-1][1]), 1)) + ps[-1][2:]])
                if isinstance(idx, int) and idx < 0:
                    k = -idx
                    for p in reversed(s.parts):
                        if p[0] == "one":
                            if k == 1: return p[1]
                            k -= 1
                        elif p[0] == "many" and self.ctx.decide(le(k, num(p[1]))) is True: return self.vsub(p[3], {p[2]: sub(num(p[1]), k)})
                        else: break
                if len(s.parts) == 1 and isscal(idx):
                    return self.vsub(s.parts[0][3], {s.parts[0][2]: self.nidx(idx, num(s.parts[0][1]))})
        h = getattr(a, "getitem", None)
        if h: return h(self, idx)
        raise Unsupported("subscript of %r with %r" % (a, idx))

    # ------------------------------------------------------------ symbolic loop
    def sym_loop(self, it, run, frame, target_names=()):
        """executes  for x in it: body  with it a SymIter; run(item) executes one iteration"""
        n = num(it.n)
        if self.ctx.decide(le(n, 0)) is True: return
        if n is ONE:
            try: run(it.item(ZERO))
            except (Cont, Brk): pass
            return
        k = fresh("k"); ctx0 = self.ctx
        base = self.snap(); nobl = len(self.obls)
        # 1. dry run: which locations are written, with which kinds of values
        self.wlog.append({}); self.ctx = ctx0.extend(le(0, k), lt(k, n)); self.loopk.append(k)
        dry = self.explore(lambda: run(it.item(k)))
        written = self.wlog.pop()
        del self.obls[nobl:]
        if any(r[1] == "ret" for r in dry): raise Unsupported("return inside a loop over a symbolic range")
        if any(r[1] == "brk" for r in dry): raise Unsupported("break inside a loop over a symbolic range")
        locs = []
        for (h, key) in written:
            if h not in base: continue
            locs.append(self.mkloc(h, key, base, dry, k))
        locs = [l for g in locs for l in g]
        if any(l.kind == "arrv" and (l.init.cell, None) in {(h, None) for h, _ in written} for l in locs): raise Unsupported("a loop both rebinds and updates an array")
        # 2. havoc and run the real pass
        self.restore(base); self.ctx = ctx0.extend(le(0, k), lt(k, n))
        for l in locs: self.havoc(l, k)
        inv = [(l, d) for l in locs for d in [self.range_guess(l, k, ctx0)] if d is not None]
        for l, d in inv: c = app(l.c, k, sort="I"); self.ctx = self.ctx.extend(le(0, c), lt(c, d))
        start = self.snap()
        self.wlog.append({})
        res = self.explore(lambda: run(it.item(k)))
        w2 = self.wlog.pop()
        for (h, key) in w2:
            if (h, key) not in written and h in base: raise Unsupported("the set of locations a loop writes is not stable")
        ok = [r for r in res if r[1] == "ok"]; ex = [r for r in res if r[1] == "exc"]
        for l, d in inv:
            for r in ok:
                v = nt(self.pget(r[3][l.h], l))
                if r[4].decide(le(0, v)) is not True or r[4].decide(lt(v, d)) is not True: raise Unsupported("a carried index leaves its range")
            if d not in self.dims: self.dims = list(self.dims) + [d]
        self.restore(base); self.ctx = ctx0; self.loopk.pop()
        for r in res:
            for h, s in r[3].items():
                if h not in self.heap: self.heap[h] = s
        if not ok:
            if ex and self.ctx.decide(le(1, n)) is True: raise ex[0][2]
            raise Unsupported("every path of a loop body raises")
        kctx = ctx0.extend(le(0, k), lt(k, n))
        for l in locs: self.merge_loc(l, ok, kctx)
        fns = self.resolve([l for l in locs if l.kind in ("s", "cell") or l.kind == "arrv" and not isinstance(l.post, Poison)], k, n, kctx, ctx0)
        # exceptions
        for o in self.obls[nobl:]:
            o["facts"] = [subst_apps(f, fns) for f in o["facts"]]; o["goal"] = subst_apps(o["goal"], fns)
        econd = or_(*[subst_apps(r[0], fns) for r in ex]) if ex else FALSE
        # 3. final values
        for l in locs: self.finish(l, k, n, fns, ctx0)
        for (h, key) in written: self.log(h, key)
        if ex:
            c = binder("exists", k, n, econd)
            if self.branch(c):
                raise ex[0][2]

    def range_guess(self, l, k, ctx0):
        """an index set to a maximiser in every iteration stays in its range: candidate upper bound (checked inductively by the caller)"""
        if l.kind != "s" or l.sort != "I" or l.log or not l.posts: return None
        ns = {p.a[1] if isinstance(p, T) and p.op in ("argf", "argl") else None for p in l.posts}
        if len(ns) != 1: return None
        d = ns.pop()
        if d is None or k in fv(d): return None
        i = nt(l.init)
        return d if ctx0.decide(le(0, i)) is True and ctx0.decide(lt(i, d)) is True else None

    def mkloc(self, h, key, base, dry, k):
        st = base[h]
        has = key in st if isinstance(st, dict) else True
        init = (st.get(key) if has else None) if isinstance(st, dict) else st
        oks = [r for r in dry if r[1] == "ok"]
        posts = []
        for r in oks:
            s2 = r[3][h]; posts.append(s2.get(key, KeyError) if isinstance(s2, dict) else s2)
        for r in oks:
            for hh, s in r[3].items():
                if hh not in self.heap: self.heap[hh] = s
        return self.locs_for(h, key, (), has, init, posts)

    def locs_for(self, h, key, path, has, init, posts):
        l = Loc(); l.h = h; l.key = key; l.path = path; l.has = has; l.init = init; l.c = fresh("C").a[0].replace("%", "@"); l.log = False; l.posts = posts; l.post = None; l.val = None; l.sort = "R"
        if isinstance(h, ListV) or isinstance(init, Seq) and isinstance(h, ListV): l.kind = "list"; return [l]
        if isinstance(h, Cell):
            l.kind = "cell"; b0 = init[1]
            if isinstance(b0, Poison): b0 = None
            ps = [p[1] for p in posts]
            l.log = islog(b0) if b0 is not None else False
            l.log = l.log or any(isinstance(p, LogV) for p in ps) and not (isinstance(b0, T) and not any(isinstance(p, LogV) for p in ps))
            l.sort = "I" if isinstance(b0, T) and b0.sort == "I" and all(isinstance(p, T) and p.sort == "I" for p in ps) else "R"
            if b0 is None and all(isinstance(p, T) and p.sort == "I" for p in ps) and ps: l.sort = "I"
            return [l]
        if not has: l.kind = "temp"; return [l]
        if any(p is KeyError for p in posts): l.kind = "temp"; return [l]
        if isscal(init) and all(isscal(p) for p in posts):
            l.kind = "s"; l.log = islog(init) or any(isinstance(p, LogV) for p in posts)
            if not l.log and (isinstance(init, (bool,)) or isinstance(init, T) and init.sort == "B" or any(isinstance(p, bool) or isinstance(p, T) and p.sort == "B" for p in posts)): l.kind = "temp"; return [l]
            l.sort = "I" if not l.log and nt(init).sort == "I" and all(nt(p).sort == "I" for p in posts) else "R"
            return [l]
        if isinstance(init, tuple) and posts and all(isinstance(p, tuple) and len(p) == len(init) for p in posts):
            return [x for i in range(len(init)) for x in self.locs_for(h, key, path + (i,), True, init[i], [p[i] for p in posts])]
        if all(p is init for p in posts): l.kind = "same"; return [l]
        if isinstance(init, Arr) and all(isinstance(p, Arr) and p.ndim == init.ndim for p in posts) and all(self.deq(a, b) for p in posts for a, b in zip(p.shape, init.shape)):
            l.kind = "arrv"; l.sort = "R"
            l.log = any(islog(self.heap[x.cell][1]) for x in posts + [init])
            return [l]
        l.kind = "temp"; return [l]

    def pget(self, st, l):
        v = st[l.key] if isinstance(st, dict) else st
        for i in l.path: v = v[i]
        return v

    def pset(self, l, v):
        def up(old, path): return v if not path else tuple(up(o, path[1:]) if i == path[0] else o for i, o in enumerate(old))
        h = l.h
        if isinstance(self.heap[h], dict): self.heap[h][l.key] = up(self.heap[h].get(l.key), l.path)
        else: self.heap[h] = v

    def havoc(self, l, k):
        if l.kind == "s":
            t = app(l.c, k, sort=l.sort); self.pset(l, LogV(t) if l.log else t)
            if l.log: NONNEG.add(l.c)
        elif l.kind == "cell":
            vs = self.heap[l.h][0]; t = app(l.c, k, *vs, sort=l.sort)
            if l.log: NONNEG.add(l.c)
            self.heap[l.h] = (vs, LogV(t) if l.log else t)
        elif l.kind == "list": self.heap[l.h] = Seq([("pre", l.c)])
        elif l.kind == "temp":
            if l.has: self.pset(l, Poison("value of a loop-carried variable")) 
        elif l.kind == "arrv":
            if l.log: NONNEG.add(l.c)
            l.arr = self.arr(l.init.shape, lambda *ix: LogV(app(l.c, k, *ix)) if l.log else app(l.c, k, *ix), l.init.dtype); self.pset(l, l.arr)

    def merge_loc(self, l, ok, kctx):
        if l.kind in ("s", "cell", "list", "temp", "same", "arrv"):
            vals = []
            for r in ok:
                s = r[3][l.h]
                try: v = self.pget(s, l)
                except KeyError: v = KeyError
                vals.append(v)
            if l.kind == "same": return
            if l.kind == "list":
                if len(vals) > 1 and not all(len(v.parts) == len(vals[0].parts) for v in vals): raise Unsupported("list grows differently on different paths")
                if any(not isinstance(v, Seq) or not v.parts or v.parts[0] != ("pre", l.c) for v in vals): raise Unsupported("list rewritten in a loop")
                if len(vals[0].parts) != 2: raise Unsupported("list grows by other than one element per iteration")
                l.post = self.merge_vals([r[0] for r in ok], [v.parts[1][1] for v in vals], kctx); return
            if any(v is KeyError for v in vals): l.post = Poison("unset on some path"); return
            if l.kind == "cell":
                vs = vals[0][0]
                l.vars = vs
                b = [v[1] for v in vals]
                if any(isinstance(x, Poison) for x in b): l.post = Poison("unknown content"); l.kind = "temp"; return
                l.post = self.merge_vals([r[0] for r in ok], b, kctx.extend(*[c for v, d in zip(vs, l.h.shape) for c in (le(0, v), lt(v, num(d)))])); return
            if l.kind == "arrv":
                l.vars = tuple(fresh("x") for _ in l.init.shape)
                bs = [self.at(v, l.vars) for v in vals]
                l.post = self.merge_vals([r[0] for r in ok], bs, kctx); return
            try: l.post = self.merge_vals([r[0] for r in ok], vals, kctx)
            except Unsupported as e:
                if l.kind != "temp": raise
                l.post = Poison(str(e))

    def merge_vals(self, conds, vals, ctx):
        v0 = vals[0]
        if all(v is v0 for v in vals): return v0
        if all(isscal(v) for v in vals):
            if all(not isinstance(v, (T, LogV)) and type(v) is type(v0) and v == v0 for v in vals): return v0
            r = vals[-1]
            for c, v in reversed(list(zip(conds[:-1], vals[:-1]))):
                if isinstance(v, (T, LogV)) and isinstance(r, (T, LogV)):
                    a, b = (v.e, r.e) if isinstance(v, LogV) and isinstance(r, LogV) else (v, r)
                    if a is b: continue
                r = s_ite(c, v, r)
            return r
        if all(isinstance(v, Arr) and v.ndim == v0.ndim for v in vals):
            if not all(self.deq(a, b) for v in vals for a, b in zip(v.shape, v0.shape)): raise Unsupported("arrays of different shapes on different paths")
            return self.arr(v0.shape, lambda *ix: self.merge_vals(conds, [self.at(v, ix) for v in vals], ctx), v0.dtype)
        if all(isinstance(v, tuple) and len(v) == len(v0) for v in vals):
            return tuple(self.merge_vals(conds, [v[i] for v in vals], ctx) for i in range(len(v0)))
        if all(isinstance(v, str) and v == v0 for v in vals): return v0
        raise Unsupported("cannot merge %r" % (vals,))

    # ----------------------------------------------------- solving the carries
    def resolve(self, locs, k, n, kctx, ctx0):
        """closed forms of the carried values: {carry name: fn(k, *idx) -> term}"""
        from .loops import solve
        return solve(self, locs, k, n, kctx, ctx0)

    def finish(self, l, k, n, fns, ctx0):
        memo = {}
        def fix(t): return subst_apps(t, fns, memo)
        if l.kind == "s":
            t = fns[l.c](n); self.pset(l, LogV(t) if l.log else simp0(t))
        elif l.kind == "cell":
            vs = l.vars; t = fns[l.c](n, *vs)
            self.heap[l.h] = (vs, LogV(t) if l.log else t)
        elif l.kind == "list":
            v = self.vfix(l.post, fix)
            s = l.init; s = Seq([("one", x) for x in s]) if isinstance(s, tuple) else s
            self.heap[l.h] = Seq(s.parts + [("many", n, k, v)])
        elif l.kind == "arrv":
            if isinstance(l.post, Poison): self.pset(l, l.post)
            else: self.pset(l, self.arr(l.init.shape, lambda *ix: LogV(fns[l.c](n, *ix)) if l.log else fns[l.c](n, *ix), l.init.dtype))
        elif l.kind == "temp":
            if isinstance(l.post, Poison) or l.post is None: v = l.post
            else:
                try: v = self.vsub(self.vfix(l.post, fix), {k: sub(n, 1)})
                except Unsupported as e: v = Poison(str(e))
            if l.has and l.kind == "temp" and not isinstance(v, Poison) and self.ctx.decide(le(1, n)) is not True:
                try: v = self.merge_vals([le(1, n), TRUE], [v, l.init], ctx0)
                except Unsupported as e: v = Poison(str(e))
            self.pset(l, v)

    def vfix(self, v, fix):
        if isinstance(v, T): return fix(v)
        if isinstance(v, LogV): return LogV(fix(v.e))
        if isinstance(v, tuple): return tuple(self.vfix(x, fix) for x in v)
        if isinstance(v, Arr):
            vs, body = self.heap[v.cell]
            nb = self.vfix(body, fix) if not isinstance(body, Poison) else body
            sp = tuple(("fix", fix(s[1])) if s[0] == "fix" else (s[0], s[1], fix(num(s[2])), s[3]) for s in v.spec)
            if (nb is body or isinstance(nb, LogV) and nb.e is body.e): return Arr(v.cell, tuple(fix(num(d)) for d in v.shape), sp, v.dtype)
            c = Cell(v.cell.shape, v.cell.owner); self.heap[c] = (vs, nb)
            return Arr(c, tuple(fix(num(d)) for d in v.shape), sp, v.dtype)
        if isinstance(v, ListV): return self.new(ListV(), self.vfix(self.heap[v], fix))
        if isinstance(v, Seq): return Seq([(p[0], self.vfix(p[1], fix)) if p[0] == "one" else ("many", fix(num(p[1])), p[2], self.vfix(p[3], fix)) for p in v.parts])
        return v

    def oblig(self, name, goal, **kw):
        if goal is TRUE: 
            self.obls.append(dict(name=name, facts=[], goal=TRUE, **kw)); return
        self.obls.append(dict(name=name, facts=list(self.ctx.facts), goal=goal, sub=dict(self.ctx.sub), **kw))
