"""Contracts of the external functions the code uses (Python builtins, NumPy, SciPy, scikit-learn).
These are the trusted part: each entry states what the library function returns, as a term."""
import ast, string
from fractions import Fraction
from .terms import *
from .terms import mk
from .val import *
from .nf import Rules, sign, canon
from . import nf
from . import interp as IT
from .interp import SymIter, RangeV, ExcClass, SuperV, Poison, Module

EPS = Fraction(1, 2 ** 52)
USED = set()


def B(name, fn): return Builtin(name, fn)


def kw_(k, *ok):
    """keywords outside the contract are outside the verifier's reach"""
    for x, v in k.items():
        if x not in ok and x not in ("check_finite", "overwrite_a", "overwrite_b", "order", "casting", "subok") and v is not None: raise Unsupported(f"keyword {x} of a library function")


def sc(I, v):
    return I.scal(v)


def axis_of(a, axis):
    n = a.ndim
    if axis is None: return list(range(n))
    if isinstance(axis, (tuple,)): return [x % n for x in axis]
    if isinstance(axis, T) and axis.op == "c": axis = int(axis.a[0])
    if not isinstance(axis, int): raise Unsupported("symbolic axis")
    if axis >= n or axis < -n: raise PyExc("ValueError", ("axis",))
    return [axis % n]


def reduce_(I, a, axis, keep, fn, dtype="f"):
    """fn(list of (var, dim), scalar body) -> scalar, over the given axes"""
    a = I.asarr(a); axs = axis_of(a, axis)
    out = [d for i, d in enumerate(a.shape) if i not in axs]
    vs = {i: fresh("r") for i in axs}

    def val(ix):
        it = iter(ix)
        if keep: full = [vs[i] if i in axs else ix[i] for i in range(a.ndim)]
        else: full = [vs[i] if i in axs else next(it) for i in range(a.ndim)]
        return fn([(vs[i], num(a.shape[i])) for i in axs], I.at(a, full))
    if keep: return I.arr([ONE if i in axs else d for i, d in enumerate(a.shape)], lambda *ix: val(ix), dtype)
    if not out: return val(())
    return I.arr(out, lambda *ix: val(ix), dtype)


def f_sum(bs, v):
    t = nt(v)
    for w, n in reversed(bs): t = ssum(w, n, t)
    return t


def f_prod(bs, v):
    t = nt(v)
    for w, n in reversed(bs): t = sprod(w, n, t)
    return t


def f_max(bs, v):
    l = islog(v); t = lg(v).e if l else nt(v)
    for w, n in reversed(bs): t = smax(w, n, t)
    return LogV(t) if l else t


def f_min(bs, v):
    l = islog(v); t = lg(v).e if l else nt(v)
    if l: raise Unsupported("min of logs")
    for w, n in reversed(bs): t = neg(smax(w, n, neg(t)))
    return t


def f_any(bs, v):
    t = tb(v)
    for w, n in reversed(bs): t = binder("exists", w, n, t)
    return t


def f_all(bs, v):
    t = tb(v)
    for w, n in reversed(bs): t = binder("forall", w, n, t)
    return t


def tb(v):
    if isinstance(v, LogV): return not_(eq(v.e, 1))
    t = tm(v)
    return t if t.sort == "B" else not_(eq(t, 0))


def f_arg(op):
    def f(bs, v):
        if len(bs) != 1: raise Unsupported("argmax over several axes")
        (w, n), = bs
        t = lg(v).e if islog(v) else nt(v)
        return binder(op, w, n, t)
    return f


def np_sum(I, a, axis=None, dtype=None, out=None, keepdims=False):
    a0 = I.asarr(a)
    if dtype is not None and dt(dtype) != "f" and a0.dtype not in "ib": raise Unsupported("sum with a given element type")
    return reduce_(I, a0, axis, keepdims, f_sum, "i" if a0.dtype in "ib" else "f")


def np_prod(I, a, axis=None, keepdims=False): return reduce_(I, a, axis, keepdims, f_prod)
def np_max(I, a, axis=None, out=None, keepdims=False): a = I.asarr(a); return reduce_(I, a, axis, keepdims, f_max, a.dtype)
def np_min(I, a, axis=None, out=None, keepdims=False): a = I.asarr(a); return reduce_(I, a, axis, keepdims, f_min, a.dtype)
def np_any(I, a, axis=None, out=None, keepdims=False): return reduce_(I, a, axis, keepdims, f_any, "b")
def np_all(I, a, axis=None, out=None, keepdims=False): return reduce_(I, a, axis, keepdims, f_all, "b")
def np_argmax(I, a, axis=None, out=None, keepdims=False):
    a = I.asarr(a)
    if axis is None and a.ndim != 1: raise Unsupported("flat argmax")
    return reduce_(I, a, 0 if axis is None else axis, keepdims, f_arg("argf"), "i")


def np_mean(I, a, axis=None, dtype=None, out=None, keepdims=False):
    a = I.asarr(a)
    if dtype is not None and not (isinstance(dtype, Opaque) and dtype.kind == "f"): raise Unsupported("mean dtype")
    return reduce_(I, a, axis, keepdims, lambda bs, v: div(f_sum(bs, v), mul(ONE, *[n for _, n in bs])))


def np_var(I, a, axis=None, ddof=0, keepdims=False):
    a = I.asarr(a)
    def f(bs, v):
        n = mul(ONE, *[m for _, m in bs]); mean = div(f_sum(bs, v), n)
        bs2 = [(fresh("r"), m) for _, m in bs]
        v2 = subst(nt(v), {w: w2 for (w, _), (w2, _) in zip(bs, bs2)})
        return div(f_sum(bs2, pw(sub(v2, mean), 2)), sub(n, ddof) if ddof else n)
    return reduce_(I, a, axis, keepdims, f)


def np_cumsum(I, a, axis=None, dtype=None):
    a = I.asarr(a)
    if dtype is not None and dt(dtype) != "f" and not (isinstance(dtype, Opaque) and getattr(dtype, "wide", False)): raise Unsupported("cumsum with a given element type")
    if axis is None and a.ndim != 1: raise Unsupported("flat cumsum")
    ax = axis_of(a, 0 if axis is None else axis)[0]
    def f(*ix):
        w = fresh("r"); full = list(ix); full[ax] = w
        return ssum(w, add(ix[ax], 1), nt(I.at(a, full)))
    return I.arr(a.shape, f, a.dtype)


def dt(dtype, default="f"):
    if dtype is None: return default
    if isinstance(dtype, Opaque) and dtype.what == "dtype": return dtype.kind
    if isinstance(dtype, Builtin): return {"float": "f", "int": "i", "bool": "b"}[dtype.name]
    raise Unsupported("dtype %r" % (dtype,))


def shape_of(I, s):
    s = sc(I, s)
    if isscal(s): return (nt(s),)
    it = I.iterate(s)
    if isinstance(it, SymIter): raise Unsupported("symbolic rank")
    return tuple(nt(sc(I, x)) for x in it)


def conv(I, a, d):
    if d == a.dtype or d is None: return None
    if d == "f" and a.dtype in "ib": return "f"
    if d == "i" and a.dtype == "i": return "i"
    raise Unsupported(f"conversion {a.dtype} to {d}")


def np_asarray(I, v, dtype=None, **kw):
    kw_(kw, "copy")
    a = v if isinstance(v, Arr) else I.asarr(v)
    if isinstance(v, T) and v.sort == "R": a.cell.anytype = True
    if dtype is not None and dt(dtype) == "f" and getattr(a.cell, "anytype", False) and not getattr(a.cell, "isfloat", False):
        r = I.copy(a, "f")
        if a.cell.owner is not None: r.cell.maybe = a.cell       # the same array where it is of a float type already
        return r
    if dtype is not None:
        d = dt(dtype)
        if d != a.dtype:
            if d == "i" and a.dtype == "f":
                t = I.heap[a.cell][1]
                if isinstance(t, T) and t.sort == "I": return I.copy(a, "i")
                raise Unsupported("float to int conversion")
            return I.arr(a.shape, lambda *ix: I.at(a, ix) if d != "f" or not isinstance(I.at(a, ix), T) or I.at(a, ix).sort != "B" else num01(I.at(a, ix)), d)
    return a


def np_array(I, v, dtype=None, copy=True, order=None, ndmin=0, subok=False):
    r = np_asarray(I, v, dtype)
    return I.copy(r, "f" if dtype is not None and r.dtype == "f" else None) if copy and r is v else r


def np_full(I, shape, v, dtype=None):
    sh = shape_of(I, shape)
    if isinstance(v, (ListV, tuple)): v = I.asarr(v)
    if isinstance(v, Arr):
        b = I.bcast(v, sh); return I.arr(sh, lambda *ix: I.at(b, ix), v.dtype)
    v = sc(I, v)
    k = dt(dtype, "i" if isinstance(v, int) or isinstance(v, T) and v.sort == "I" else "f")
    return I.arr(sh, lambda *ix: v if not isnum(v) or v == NINF else num(v), k)


def np_zeros(I, shape, dtype=None, order=None): return I.arr(shape_of(I, shape), lambda *ix: ZERO, dt(dtype))
def np_ones(I, shape, dtype=None, order=None): return I.arr(shape_of(I, shape), lambda *ix: ONE, dt(dtype))


def np_empty(I, shape, dtype=None, order=None):
    u = fresh("UNINIT").a[0]; k = dt(dtype)
    return I.arr(shape_of(I, shape), lambda *ix: app(u, *ix, sort="I" if k == "i" else "R"), k)


def dtype_of(I, a):
    """the element type, where it is determined: a float parameter or argument may hold integers"""
    if isinstance(a, T) and a.sort == "R" or isinstance(a, Arr) and a.dtype == "f" and getattr(a.cell, "anytype", False): raise Unsupported("element type of a parameter (it may be an integer type)")
    return Opaque("dtype", kind=a.dtype if isinstance(a, Arr) else "i" if isinstance(a, int) or isinstance(a, T) and a.sort == "I" else "f")


def like(f): return lambda I, a, dtype=None, **k: f(I, tuple(I.asarr(a).shape), dtype if dtype is not None else dtype_of(I, a if isinstance(a, (T, Arr)) else I.asarr(a)))


def np_eye(I, n, M=None, dtype=None, k=0):
    n = nt(sc(I, n)); m = n if M is None else nt(sc(I, M))
    if k: raise Unsupported("eye k")
    return I.arr((n, m), lambda i, j: ite(eq(i, j), ONE, ZERO))


def np_arange(I, *a, dtype=None):
    a = [sc(I, x) for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if st == 1: return I.arr((nt(s_sub(hi, lo)),), lambda i: add(nt(lo), i), "i")
    if st == -1: return I.arr((nt(s_sub(lo, hi)),), lambda i: sub(nt(lo), i), "i")
    raise Unsupported("arange step")


def np_diag(I, a, k=0):
    a = I.asarr(a)
    if k: raise Unsupported("diag k")
    if a.ndim == 1: return I.arr((a.shape[0], a.shape[0]), lambda i, j: ite(eq(i, j), nt(I.at(a, (i,))), ZERO))
    return np_diagonal(I, a)


def np_diagonal(I, a, offset=0, axis1=0, axis2=1):
    if offset: raise Unsupported("diagonal offset")
    a = I.asarr(a); x, y = axis1 % a.ndim, axis2 % a.ndim
    if not I.deq(a.shape[x], a.shape[y]): raise Unsupported("diagonal of a non-square array")
    rest = [i for i in range(a.ndim) if i not in (x, y)]
    m = {i: j for j, i in enumerate(rest)}; m[x] = m[y] = len(rest)
    sp = tuple(s if s[0] == "fix" else ("ax", m[s[1]], s[2], s[3]) for s in a.spec)
    return Arr(a.cell, tuple(a.shape[i] for i in rest) + (a.shape[x],), sp, a.dtype)


def np_trace(I, a):
    d = np_diagonal(I, a)
    return reduce_(I, d, -1, False, f_sum)


def np_transpose(I, a, axes=None):
    a = I.asarr(a)
    if axes is None: p = list(range(a.ndim))[::-1]
    else:
        it = I.iterate(axes) if not isinstance(axes, int) else [axes]; p = [x % a.ndim for x in it]
    inv = {x: j for j, x in enumerate(p)}
    sp = tuple(s if s[0] == "fix" else ("ax", inv[s[1]], s[2], s[3]) for s in a.spec)
    return Arr(a.cell, tuple(a.shape[x] for x in p), sp, a.dtype)


def np_outer(I, a, b):
    a, b = I.asarr(a), I.asarr(b)
    if a.ndim != 1 or b.ndim != 1: raise Unsupported("outer of matrices")
    return I.arr((a.shape[0], b.shape[0]), lambda i, j: mul(nt(I.at(a, (i,))), nt(I.at(b, (j,)))))


def matmul(I, a, b):
    a, b = I.asarr(a), I.asarr(b)
    if a.ndim == 0 or b.ndim == 0: raise PyExc("ValueError")
    n = num(a.shape[-1]); m = num(b.shape[0] if b.ndim == 1 else b.shape[-2])
    if not I.deq(n, m):
        raise Unsupported(f"matmul of {show(n)} and {show(m)}")
    w = fresh("r")
    if a.ndim == 1 and b.ndim == 1: return ssum(w, n, mul(nt(I.at(a, (w,))), nt(I.at(b, (w,)))))
    if a.ndim == 1: return I.arr(b.shape[:-2] + b.shape[-1:], lambda *ix: ssum(w, n, mul(nt(I.at(a, (w,))), nt(I.at(b, ix[:-1] + (w, ix[-1]))))))
    if b.ndim == 1: return I.arr(a.shape[:-1], lambda *ix: ssum(w, n, mul(nt(I.at(a, ix + (w,))), nt(I.at(b, (w,))))))
    bt = I.bshape(a.shape[:-2], b.shape[:-2]); ab = I.bcast(a, tuple(bt) + a.shape[-2:]); bb = I.bcast(b, tuple(bt) + b.shape[-2:])
    return I.arr(tuple(bt) + (a.shape[-2], b.shape[-1]), lambda *ix: ssum(w, n, mul(nt(I.at(ab, ix[:-1] + (w,))), nt(I.at(bb, ix[:-2] + (w, ix[-1]))))), "i" if a.dtype == b.dtype == "i" else "f")


def np_dot(I, a, b, out=None):
    if isscal(a) or isscal(b): return I.ew(s_mul, a, b)
    a, b = I.asarr(a), I.asarr(b)
    if a.ndim > 2 or b.ndim > 2: raise Unsupported("dot of tensors")
    return matmul(I, a, b)


def np_einsum(I, spec, *ops, optimize=None, out=None):
    ops = [I.asarr(o) for o in ops]
    spec = spec.replace(" ", "")
    ins, arrow, outs = spec.partition("->")
    ins = ins.split(",")
    if len(ins) != len(ops): raise PyExc("ValueError")
    # ellipsis
    ell = []
    for s, o in zip(ins, ops): ell.append(o.ndim - len(s.replace("...", "")) if "..." in s else 0)
    ne = max(ell); names = [chr(0x3b1 + i) for i in range(ne)]
    ins = [s.replace("...", "".join(names[ne - e:])) for s, e in zip(ins, ell)]
    if not arrow:
        cnt = {}
        for s in ins:
            for ch in s: cnt[ch] = cnt.get(ch, 0) + 1
        outs = "".join(names) + "".join(sorted(ch for ch in cnt if cnt[ch] == 1 and ch not in names))
    else: outs = outs.replace("...", "".join(names))
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim: raise PyExc("ValueError", ("einsum subscripts",))
        for ch, d in zip(s, o.shape):
            d = num(d)
            if ch in dims and not I.deq(dims[ch], d):
                if dims[ch] is ONE: dims[ch] = d
                elif d is ONE: pass
                else: raise Unsupported("einsum dimension mismatch")
            else: dims.setdefault(ch, d)
    con = [ch for ch in dims if ch not in outs]

    def f(*ix):
        m = dict(zip(outs, ix)); bs = []
        for ch in con: m[ch] = fresh("r"); bs.append((m[ch], dims[ch]))
        t = mul(ONE, *[nt(I.at(o, tuple(ZERO if num(d) is ONE and dims[ch] is not ONE else m[ch] for ch, d in zip(s, o.shape)))) for s, o in zip(ins, ops)])
        for w, n in reversed(bs): t = ssum(w, n, t)
        return t
    if not outs: return f()
    return I.arr([dims[ch] for ch in outs], f, "i" if all(o.dtype == "i" for o in ops) else "f")


def np_where(I, c, a=None, b=None):
    if a is None:
        c = I.asarr(c)
        if c.ndim != 1 or b is not None: raise Unsupported("where with one argument")
        w = fresh("r"); m = lam((w,), c.shape, ite(tb(I.at(c, (w,))), ONE, ZERO)); n = ssum(w, c.shape[0], ite(tb(I.at(c, (w,))), ONE, ZERO))
        Rules.bounds["NTH"] = num(c.shape[0])      # the positions of the true entries, in order
        return (I.arr((n,), lambda j: app("NTH", m, j, sort="I"), "i"),)
    if isinstance(c, (T, bool)): 
        if isscal(a) and isscal(b): return s_ite(c, a, b)
        c = I.asarr(c)
    return I.ew(lambda x, y, z: s_ite(tb(x), y, z), c, a, b, dtype="f" if any(isinstance(v, Arr) and v.dtype == "f" for v in (a, b)) else None)


def np_maximum(I, a, b, out=None): return outp(I, I.ew(s_max, a, b), out)
def np_minimum(I, a, b, out=None): return outp(I, I.ew(s_min, a, b), out)


def outp(I, r, out):
    if out is None: return r
    if not isinstance(out, Arr): raise Unsupported("out=")
    I.store(out, r, closed=isinstance(r, Arr) and getattr(r.cell, "anytype", False) and getattr(r.cell, "srcs", None) == {out.cell}); return out


def np_log(I, a, out=None, **k): kw_(k); return outp(I, I.ew(s_log, a, dtype="f"), out)
def np_exp(I, a, out=None, **k): kw_(k); return outp(I, I.ew(s_exp, a, dtype="f"), out)
def np_sqrt(I, a): return I.ew(lambda x: sqrt(nt(x)), a, dtype="f")
def np_abs(I, a): return I.ew(s_abs, a)


def np_square(I, a, out=None, **k):
    kw_(k)
    return outp(I, I.ew(s_square, a), out)


def s_isnan(x): return FALSE


def s_isfinite(x):
    """log-domain values are -inf where the probability is zero; other values are finite where they are defined"""
    if isinstance(x, LogV): return not_(eq(x.e, 0))
    if isinstance(x, T) and any(y.op == "app" and y.a[0] == "log" for y in nf.walk(x)): raise Unsupported("isfinite of an expression with logarithms")
    return FALSE if isinstance(x, float) and x in (float("inf"), NINF) else TRUE


def s_square(x): return pw(nt(x), 2)


def ufunc(fn):
    def f(I, *a, out=None, **k):
        kw_(k); return outp(I, I.ew(fn, *a), out)
    return f


def np_tile(I, a, reps):
    a = I.asarr(a); reps = shape_of(I, reps)
    n = max(a.ndim, len(reps)); sh = (ONE,) * (n - a.ndim) + tuple(num(d) for d in a.shape); reps = (ONE,) * (n - len(reps)) + tuple(reps)
    ext = n - a.ndim

    def f(*ix):
        out = []
        for i in range(ext, n):
            d = sh[i]; r = reps[i]
            out.append(ix[i] if r is ONE else ZERO if d is ONE else app("mod", ix[i], d, sort="I"))
        return I.at(a, out)
    return I.arr([mul(d, r) for d, r in zip(sh, reps)], f, a.dtype)


def np_repeat(I, a, n, axis=None):
    a = I.asarr(a); n = nt(sc(I, n))
    if a.ndim == 0: return I.arr((n,), lambda i: I.at(a, ()), a.dtype)
    ax = axis_of(a, 0 if axis is None else axis)[0]
    if axis is None and a.ndim != 1: raise Unsupported("flat repeat")
    def f(*ix):
        ix = list(ix); ix[ax] = app("floordiv", ix[ax], n, sort="I") if num(a.shape[ax]) is not ONE else ZERO
        return I.at(a, ix)
    sh = list(a.shape); sh[ax] = mul(sh[ax], n)
    return I.arr(sh, f, a.dtype)


def np_broadcast_to(I, a, shape, subok=False):
    a = I.asarr(a); sh = shape_of(I, shape)
    if len(sh) < a.ndim: raise PyExc("ValueError")
    for i, d in enumerate(a.shape):
        e = sh[len(sh) - a.ndim + i]; d = num(d)
        if d is ONE or I.deq(d, e): continue
        c = or_(eq(d, e), eq(d, 1))
        if not I.branch(c): raise PyExc("ValueError", ("broadcast_to",))
        if not I.branch(eq(d, e)):
            return np_broadcast_to(I, Arr(a.cell, tuple(ONE if j == i else x for j, x in enumerate(a.shape)), a.spec, a.dtype), shape)
    r = I.bcast(a, sh); r = Arr(r.cell, r.shape, r.spec, r.dtype)
    return r


def np_reshape(I, a, *shape, order=None, newshape=None):
    a = I.asarr(a)
    if newshape is not None: shape = (newshape,)
    if len(shape) == 1 and not isscal(shape[0]): shape = tuple(I.iterate(shape[0]))
    shape = [sc(I, s) for s in shape]
    old = [num(d) for d in a.shape]; tot = mul(ONE, *old)
    neg1 = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
    new = [None if i in neg1 else nt(s) for i, s in enumerate(shape)]
    if neg1:
        rest = [d for d in new if d is not None]; rem = list(old)
        for d in rest:
            if d is ONE: continue
            for j, x in enumerate(rem):
                if x is d or I.deq(x, d): rem.pop(j); break
            else: raise Unsupported("reshape with an unknown dimension")
        new[neg1[0]] = mul(ONE, *rem)
    else:
        if not (mul(ONE, *new) is tot or I.deq(mul(ONE, *new), tot)):
            if I.branch(eq(mul(ONE, *new), tot)): pass
            else: raise PyExc("ValueError", ("reshape",))
    # dropping / inserting axes of length one is a view
    o2 = [d for d in old if d is not ONE]; n2 = [d for d in new if d is not ONE]
    if len(o2) == len(n2) and all(x is y or I.deq(x, y) for x, y in zip(o2, n2)):
        oi = [i for i, d in enumerate(old) if d is not ONE]; ni = [i for i, d in enumerate(new) if d is not ONE]
        m = dict(zip(oi, ni))
        sp = tuple(s if s[0] == "fix" else (("ax", m[s[1]], s[2], s[3]) if s[1] in m else ("fix", s[2])) for s in a.spec)
        return Arr(a.cell, tuple(new), sp, a.dtype)
    # general case through the flat index
    def f(*ix):
        fl = ZERO
        for i, d in zip(ix, new): fl = add(mul(fl, d), i)
        return I.at(a, unflat(I, fl, old))
    return I.arr(new, f, a.dtype)


def flat_parts(t, d):
    """t = q*d + r with the monomials divisible by d in q"""
    q = []; r = []
    ex = [t]
    while ex:
        x = ex.pop()
        if x.op == "+": ex.extend(x.a); continue
        if x is d: q.append(ONE); continue
        if x.op == "*":
            fs = list(x.a)
            if d in fs: fs.remove(d); q.append(mul(*fs) if fs else ONE); continue
            sums = [y for y in fs if y.op == "+"]
            if sums:
                s = sums[0]; fs.remove(s)
                ex.extend(mul(y, *fs) for y in s.a); continue
            if d.op == "*":
                ds = list(d.a); gs = list(fs); ok = True
                for y in ds:
                    if y in gs: gs.remove(y)
                    else: ok = False
                if ok: q.append(mul(*gs) if gs else ONE); continue
        r.append(x)
    return add(ZERO, *q), add(ZERO, *r)


def idiv(ctx, t, d):
    """(t // d, t % d) simplified when the remainder is provably in range"""
    q, r = flat_parts(t, d)
    if ctx.decide(and_(le(0, r), lt(r, d))) is True: return q, r
    return app("floordiv", t, d, sort="I"), app("mod", t, d, sort="I")


def unflat(I, fl, dims):
    out = []
    for d in reversed(dims[1:]):
        q, r = idiv(I.ctx, fl, d); out.append(r); fl = q
    out.append(fl)
    return out[::-1]


def _dm(which):
    def f(ctx, args):
        a, d = args
        if which == "floordiv" and d.op == "c" and a.op == "c": return num(a.a[0] // d.a[0])
        if which == "mod" and d.op == "c" and a.op == "c": return num(a.a[0] % d.a[0])
        q, r = flat_parts(a, d)
        if ctx.decide(lt(0, d)) is True:
            if ctx.decide(and_(le(0, r), lt(r, d))) is True: return q if which == "floordiv" else r
            if q is not ZERO: return add(q, app("floordiv", r, d, sort="I")) if which == "floordiv" else app("mod", r, d, sort="I")
            if which == "floordiv" and d is num(2):
                # n(n+1)/2 and the like: even for both parities of n
                for k in (num(2),):
                    vs = [v for v in fv(a)]
                    if len(vs) <= 3 and all(even_poly(a, v, vs) for v in vs[:1]): return mul(a, num(Fraction(1, 2)))
        return None
    return f


def even_poly(a, v, vs):
    """the integer polynomial a takes only even values"""
    import itertools
    for bits in itertools.product((0, 1), repeat=len(vs)):
        x = subst(a, dict(zip(vs, map(num, bits))))
        if x.op != "c" or x.a[0] % 2: return False
    return all(y.op in ("v", "c", "+", "*", "^") and (y.op != "c" or y.a[0].denominator == 1) for y in walk(a))


Rules.appnorm["floordiv"] = _dm("floordiv")
Rules.appnorm["mod"] = _dm("mod")


def np_squeeze(I, a, axis=None):
    a = I.asarr(a)
    axs = [i for i, d in enumerate(a.shape) if num(d) is ONE] if axis is None else axis_of(a, axis)
    for i in axs:
        if not I.deq(a.shape[i], ONE):
            if not I.branch(eq(num(a.shape[i]), 1)): raise PyExc("ValueError", ("squeeze",))
    m = {}; k = 0
    for i in range(a.ndim):
        if i not in axs: m[i] = k; k += 1
    sp = tuple(s if s[0] == "fix" else (("ax", m[s[1]], s[2], s[3]) if s[1] in m else ("fix", s[2])) for s in a.spec)
    return Arr(a.cell, tuple(d for i, d in enumerate(a.shape) if i not in axs), sp, a.dtype)


def np_expand(I, a, axis):
    a = I.asarr(a); axis = axis % (a.ndim + 1)
    return I.index(a, (slice(None),) * axis + (None,))


def np_atleast_2d(I, v):
    a = I.asarr(v)
    if a.ndim >= 2: return a
    if a.ndim == 1: return I.index(a, (None, slice(None)))
    return I.index(a, (None, None))


def set_shape(I, a, shape):
    """a.shape = shape (in place: Arr objects stand for the array objects of the program)"""
    if I.loopk: raise Unsupported("shape assignment in a loop")
    b = np_reshape(I, a, I.iterate(shape) if not isscal(shape) else shape)
    if b.cell is not a.cell: raise PyExc("AttributeError", ("incompatible shape",))
    a.shape = b.shape; a.spec = b.spec


def np_concatenate(I, seq, axis=0):
    s = I.seq(seq)
    if not isinstance(s, Seq) and s and all(isinstance(x, Arr) for x in s) and isinstance(axis, int) and (len(s) > 1 or axis): return cat_axis(I, s, axis)
    if axis not in (0, None): raise Unsupported("concatenate axis")
    parts = s.parts if isinstance(s, Seq) else [("one", x) for x in s]
    items = []
    for p in parts:
        if p[0] == "one":
            a = I.asarr(p[1])
            if a.shape[0] is ZERO: continue
            items.append(("one", a))
        else: items.append(("many", num(p[1]), p[2], I.asarr(p[3])))
    if not items and len(parts) == 1: return I.copy(I.asarr(parts[0][1]))
    if not items: raise Unsupported("concatenation of nothing")
    if len(items) == 1 and items[0][0] == "one": return I.copy(items[0][1])
    if len(items) == 1:
        _, n, k, a = items[0]
        # segment k occupies [off(k), off(k) + len(k))
        L = num(a.shape[0])
        off = lambda i: (lambda w: ssum(w, i, subst(L, {k: w})))(fresh("r"))
        tot = off(n)
        if not any(k in fv(num(d)) for d in a.shape):    # equal lengths: row r of the result is row r % L of part r // L
            def f(r, *ix):
                q, m = idiv(I.ctx, r, L) if L is not ONE else (r, ZERO)
                return I.vsub(I.at(a, (m,) + ix), {k: q})
            return I.arr((mul(n, L),) + tuple(a.shape[1:]), f, a.dtype)
        return CatArr.make(I, n, k, a, L, off, tot)
    raise Unsupported("concatenation of a mixed family")


class CatArr:
    """concatenation of a family of arrays of varying length: element r is expressed through
    SEG(r) (the segment r belongs to), whose defining property is off(SEG) <= r < off(SEG+1)"""
    @staticmethod
    def make(I, n, k, a, L, off, tot):
        ls = mk("lam", ((k,), (n,), L), "L")

        def f(r, *ix):
            s = app("SEG", ls, r, sort="I")
            return I.vsub(I.at(a, (sub(r, off(s)),) + ix), {k: s})
        res = I.arr((tot,) + tuple(a.shape[1:]), f, a.dtype)
        I.cats = getattr(I, "cats", {}); I.cats[res.cell] = (n, k, a)
        return res


def np_stack(I, seq, axis=0, out=None):
    s = I.seq(seq)
    r = I.stackseq(s) if isinstance(s, Seq) else I.stack([I.asarr(x) if not isscal(x) else x for x in s])
    return outp(I, I.copy(np_moveaxis(I, r, 0, axis)) if axis != 0 else r, out)


def np_moveaxis(I, a, src, dst):
    a = I.asarr(a)
    if not isinstance(src, int) or not isinstance(dst, int): raise Unsupported("moveaxis")
    n = a.ndim
    if not (-n <= src < n and -n <= dst < n): raise PyExc("ValueError", ("axis",))
    p = [i for i in range(n) if i != src % n]; p.insert(dst % n, src % n)
    return np_transpose(I, a, tuple(p))


def np_column_stack(I, seq):
    s = I.seq(seq)
    r = I.stackseq(s) if isinstance(s, Seq) else I.stack([I.asarr(x) for x in s])
    if r.ndim != 2: raise Unsupported("column_stack of matrices")
    return I.copy(np_transpose(I, r))


def cat_axis(I, parts, axis):
    """concatenation of finitely many arrays along any axis"""
    parts = [I.asarr(x) for x in parts]; n = parts[0].ndim; ax = axis % n
    for x in parts[1:]:
        if x.ndim != n or not all(I.deq(p, q) for i, (p, q) in enumerate(zip(x.shape, parts[0].shape)) if i != ax): raise Unsupported("concatenate shapes")
    offs = [ZERO]
    for x in parts: offs.append(add(offs[-1], num(x.shape[ax])))
    def f(*ix):
        r = None
        for x, o in reversed(list(zip(parts, offs))):
            j = list(ix); j[ax] = sub(ix[ax], o)
            if r is None: r = I.at(x, j)
            else: r = s_ite(lt(ix[ax], add(o, num(x.shape[ax]))), I.at(x, j), r)
        return r
    sh = list(parts[0].shape); sh[ax] = offs[-1]
    return I.arr(sh, f, "i" if all(x.dtype == "i" for x in parts) else "f")


def np_hstack(I, seq):
    s = I.seq(seq)
    if isinstance(s, Seq): 
        if len(s.parts) == 1 and I.asarr(s.parts[0][3]).ndim == 1: return np_concatenate(I, seq)
        raise Unsupported("hstack of a family")
    a = [I.asarr(x) for x in s]; a = [np_reshape(I, x, (1,)) if x.ndim == 0 else x for x in a]
    return cat_axis(I, a, 0 if a[0].ndim == 1 else 1)


def np_vstack(I, seq):
    s = I.seq(seq)
    if isinstance(s, Seq):
        if len(s.parts) == 1 and I.asarr(s.parts[0][3]).ndim == 1: return I.stackseq(s)
        return np_concatenate(I, seq)
    return cat_axis(I, [np_atleast_2d(I, x) for x in s], 0)


def np_tensordot(I, a, b, axes=2):
    a, b = I.asarr(a), I.asarr(b)
    if isinstance(axes, int): xa, xb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        xa, xb = [I.iterate(x) if not isscal(x) else [x] for x in I.iterate(axes)]
    if not all(isinstance(x, int) for x in list(xa) + list(xb)) or len(xa) != len(xb): raise Unsupported("tensordot axes")
    xa = [x % a.ndim for x in xa]; xb = [x % b.ndim for x in xb]
    for x, y in zip(xa, xb):
        if not I.deq(a.shape[x], b.shape[y]): raise Unsupported("tensordot dimensions")
    fa = [i for i in range(a.ndim) if i not in xa]; fb = [i for i in range(b.ndim) if i not in xb]
    def f(*ix):
        ws = [fresh("r") for _ in xa]; ia = dict(zip(xa, ws)); ib = dict(zip(xb, ws))
        ia.update(zip(fa, ix)); ib.update(zip(fb, ix[len(fa):]))
        t = mul(nt(I.at(a, [ia[i] for i in range(a.ndim)])), nt(I.at(b, [ib[i] for i in range(b.ndim)])))
        for w, x in reversed(list(zip(ws, xa))): t = ssum(w, num(a.shape[x]), t)
        return t
    if not fa and not fb: return f()
    return I.arr([a.shape[i] for i in fa] + [b.shape[i] for i in fb], f, "i" if a.dtype == b.dtype == "i" else "f")


def np_inner(I, a, b):
    if isscal(a) or isscal(b): return I.ew(s_mul, a, b)
    a, b = I.asarr(a), I.asarr(b)
    return np_tensordot(I, a, b, (a.ndim - 1, b.ndim - 1))


def np_average(I, a, axis=None, weights=None, keepdims=False, returned=False):
    a = I.asarr(a)
    if returned: raise Unsupported("average returned")
    if weights is None: return np_mean(I, a, axis, keepdims=keepdims)
    w = I.asarr(weights)
    if w.ndim == 1 and a.ndim > 1:
        if not isinstance(axis, int): raise PyExc("TypeError", ("axis",))
        ax = axis % a.ndim
        w = I.index(w, tuple(slice(None) if i == ax else None for i in range(a.ndim)))
    w = I.bcast(w, tuple(a.shape))
    num_ = np_sum(I, I.ew(s_mul, a, w), axis, keepdims=keepdims); den = np_sum(I, w, axis, keepdims=keepdims)
    return I.ew(s_div, num_, den)


def np_clip(I, a, a_min=None, a_max=None, out=None, min=None, max=None):
    lo = a_min if a_min is not None else min; hi = a_max if a_max is not None else max
    r = a
    if lo is not None: r = I.ew(s_max, r, lo)
    if hi is not None: r = I.ew(s_min, r, hi)
    return outp(I, r, out)


def np_argmin(I, a, axis=None, out=None, keepdims=False): return np_argmax(I, I.ew(s_neg, I.asarr(a)), axis, None, keepdims)
def np_count_nonzero(I, a, axis=None, keepdims=False): return reduce_(I, I.asarr(a), axis, keepdims, lambda bs, v: f_sum(bs, ite(tb(v), ONE, ZERO)), "i")
def np_take(I, a, idx, axis=None, **k):
    kw_(k); a = I.asarr(a)
    if axis is None and a.ndim != 1: raise Unsupported("flat take")
    ax = 0 if axis is None else axis_of(a, axis)[0]
    return I.index(a, (slice(None),) * ax + (idx,))


def np_isclose(I, a, b, rtol=None, atol=None, equal_nan=False):
    from fractions import Fraction as Fr
    rt = num(Fr(1, 10 ** 5)) if rtol is None else nt(rtol); at = num(Fr(1, 10 ** 8)) if atol is None else nt(atol)
    return I.ew(lambda x, y: le(app("abs", sub(nt(x), nt(y))), add(at, mul(rt, app("abs", nt(y))))), a, b, dtype="b")


def la_norm(I, a, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2): raise Unsupported("norm order")
    a = I.asarr(a)
    if ord == 2 and axis is None and a.ndim != 1: raise Unsupported("spectral norm")
    return I.ew(lambda x: sqrt(nt(x)), np_sum(I, I.ew(lambda x: pw(nt(x), 2), a), axis, keepdims=keepdims), dtype="f")


def red(fn):
    """ufunc.reduce"""
    return lambda I, a, axis=0, dtype=None, out=None, keepdims=False: outp(I, fn(I, a, axis, keepdims=keepdims), out)


def np_split(I, X, cs, axis=0):
    if axis != 0: raise Unsupported("split axis")
    X = I.asarr(X)
    if isinstance(cs, int): raise Unsupported("split in equal parts")
    c = I.asarr(cs); n = num(c.shape[0]); N = num(X.shape[0])
    vs = fresh("s")
    g = lambda i: nt(I.at(c, (i,)))
    if n.op == "c":
        k = int(n.a[0]); out = []; lo = ZERO
        for i in range(k): out.append(I.rows(X, lo, g(num(i)))); lo = g(num(i))
        out.append(I.rows(X, lo, N))
        return I.new(ListV(), tuple(out))
    first = canon(g(num(-1)), I.ctx)      # closed forms like sum_{l<i+1} extend to i = -1 with value 0
    lo = g(sub(vs, 1)) if first is ZERO else ite(eq(vs, 0), ZERO, g(sub(vs, 1)))
    if first is ZERO and I.ctx.decide(eq(g(n), N)) is True: return I.new(ListV(), Seq([("many", add(n, 1), vs, I.rows(X, lo, g(vs)))]))      # the last cut, at the end of X, is left implicit
    return I.new(ListV(), Seq([("many", n, vs, I.rows(X, lo, g(vs))), ("one", I.rows(X, g(sub(n, 1)), N))]))


def np_allclose(I, a, b, rtol=None, atol=None, equal_nan=False):
    from fractions import Fraction as Fr
    rt = num(Fr(1, 10 ** 5)) if rtol is None else nt(rtol); at = num(Fr(1, 10 ** 8)) if atol is None else nt(atol)
    r = I.ew(lambda x, y: le(app("abs", sub(nt(x), nt(y))), add(at, mul(rt, app("abs", nt(y))))), a, b, dtype="b")
    if isinstance(r, Arr): return reduce_(I, r, None, False, f_all, "b")
    return r


def mat(I, a, lead=()):
    """lam of the trailing two axes"""
    r, c = fresh("l"), fresh("l")
    return lam((r, c), a.shape[-2:], nt(I.at(a, tuple(lead) + (r, c))))


def vec(I, a, lead=()):
    r = fresh("l")
    return lam((r,), a.shape[-1:], nt(I.at(a, tuple(lead) + (r,))))


def sq(I, a):
    if a.ndim < 2: raise PyExc("LinAlgError")
    if not I.deq(a.shape[-1], a.shape[-2]): raise PyExc("LinAlgError")


def la_inv(I, a):
    a = I.asarr(a); sq(I, a)
    return I.arr(a.shape, lambda *ix: app("INV", mat(I, a, ix[:-2]), ix[-2], ix[-1]))


def la_slogdet(I, a):
    a = I.asarr(a); sq(I, a)
    # precondition (matrices in scope are positive definite): the sign is one
    f = lambda *ix: ONE; g = lambda *ix: app("LOGDET", mat(I, a, ix))
    if a.ndim == 2: return (f(), g())
    return (I.arr(a.shape[:-2], f), I.arr(a.shape[:-2], g))


def la_det(I, a):
    a = I.asarr(a); sq(I, a)
    g = lambda *ix: exp(app("LOGDET", mat(I, a, ix)))
    return g() if a.ndim == 2 else I.arr(a.shape[:-2], g)


def la_cholesky(I, a, lower=False, **k):
    kw_(k)
    a = I.asarr(a); sq(I, a)
    M = mat(I, a)
    if not I.branch(app("PD", M, sort="B")): raise PyExc("LinAlgError")
    n = "CHOL" if lower is True else "CHOLU"
    return I.arr(a.shape, lambda i, j: app(n, M, i, j))


def la_solve_triangular(I, a, b, lower=False, trans=0, unit_diagonal=False, **k):
    kw_(k)
    a, b = I.asarr(a), I.asarr(b)
    M = mat(I, a); nm = "TRISOL" if lower is True and trans == 0 and unit_diagonal is False else "TRISOLX"
    if b.ndim == 1: return I.arr(b.shape, lambda i: app(nm, M, vec(I, b), i))
    bt = np_transpose(I, b)
    return I.arr(b.shape, lambda i, t: app(nm, M, vec(I, bt, (t,)), i))


def la_solve(I, a, b, **k):
    kw_(k)
    a, b = I.asarr(a), I.asarr(b); w = fresh("r"); M = mat(I, a); n = a.shape[0]
    if b.ndim == 1: return I.arr(b.shape, lambda i: ssum(w, n, mul(app("INV", M, i, w), nt(I.at(b, (w,))))))
    return I.arr(b.shape, lambda i, j: ssum(w, n, mul(app("INV", M, i, w), nt(I.at(b, (w, j))))))


def la_eigvalsh(I, a, **k):
    kw_(k)
    a = I.asarr(a); M = mat(I, a)
    return I.arr(a.shape[:-1], lambda *ix: app("EIGH", mat(I, a, ix[:-1]), ix[-1]))


def la_eig(I, a, left=False, right=True):
    a = I.asarr(a); M = mat(I, a)
    if left is not False or right is not True: raise Unsupported("eig variants")
    return (I.arr(a.shape[:1], lambda i: app("EIGVAL", M, i)), I.arr(a.shape, lambda i, j: app("EIGVEC", M, i, j)))


def special1(name): return lambda I, a, out=None: outp(I, I.ew(lambda x: app(name, nt(x)), a, dtype="f"), out)


def sp_logsumexp(I, a, axis=None, b=None, keepdims=False, return_sign=False):
    if b is not None or return_sign: raise Unsupported("logsumexp weights")
    def f(bs, v):
        t = lg(v).e
        for w, n in reversed(bs): t = ssum(w, n, t)
        return LogV(t)
    return reduce_(I, a, axis, keepdims, f)


# ---------------------------------------------------------------- random state
def rng_new(I, seed, what="RandomState"):
    o = I.new(Obj(what), {"stream": seed, "pos": ZERO}); return o


def check_random_state(I, seed):
    seed = sc(I, seed)
    if isinstance(seed, Obj) and seed.cls == "RandomState": return seed
    if seed is None or isinstance(seed, ModV):
        g = getattr(I, "global_rng", None)
        if g is None: g = I.global_rng = rng_new(I, sym("GLOBAL_STREAM", "I"))
        if g not in I.heap: I.heap[g] = {"stream": sym("GLOBAL_STREAM", "I"), "pos": ZERO}
        I.effects.append("rng.global"); return g
    if isinstance(seed, (int, T)): return rng_new(I, nt(seed))
    raise PyExc("ValueError", ("cannot be used to seed",))


def draw(I, o, name, shape, dtype="f", args=(), n=None):
    st = I.heap[o]["stream"]; pos = I.heap[o]["pos"]
    shape = None if shape is None else tuple(shape)
    cnt = ONE if n is None else n
    I.setk(o, "pos", add(pos, cnt))
    f = lambda *ix: app("DRAW_" + name, st, pos, *args, *ix, sort="I" if dtype == "i" else "R")
    return f() if shape is None else I.arr(shape, f, dtype)


def rng_method(I, o, name):
    def rand(I, *sh): return draw(I, o, "rand", [nt(sc(I, s)) for s in sh] if sh else None, n=mul(ONE, *[nt(sc(I, s)) for s in sh]))
    def random_sample(I, size=None): return draw(I, o, "rand", None if size is None else shape_of(I, size), n=None if size is None else mul(ONE, *shape_of(I, size)))
    def uniform(I, low=0, high=1, size=None):
        r = random_sample(I, size); return I.ew(lambda u: s_add(low, s_mul(s_sub(high, low), u)), r)
    def dirichlet(I, alpha, size=None):
        I.trust.add("Dirichlet draws are non-negative and sum to one")
        al = I.asarr(alpha); v = vec(I, al); d = al.shape[0]
        return draw(I, o, "dirichlet", (() if size is None else shape_of(I, size)) + (d,), args=(v,), n=ONE if size is None else mul(ONE, *shape_of(I, size)))
    def mvn(I, mean, cov, size=None, **k):
        kw_(k)
        m = vec(I, I.asarr(mean)); c = I.asarr(cov); c = mat(I, c) if c.ndim == 2 else lam((fresh("l"), fresh("l")), (ONE, ONE), nt(I.at(c, ())))
        return draw(I, o, "mvn", (() if size is None else shape_of(I, size)) + (I.asarr(mean).shape[0],), args=(m, c), n=ONE if size is None else mul(ONE, *shape_of(I, size)))
    def choice(I, a, size=None, replace=True, p=None):
        if size is not None: raise Unsupported("choice size")
        pv = vec(I, I.asarr(p)) if p is not None else num(0)
        return draw(I, o, "choice", None, "i", args=(nt(sc(I, a)), pv))
    def poisson(I, lam_=1, size=None, **k):
        lam_ = k.get("lam", lam_)
        kw_(k, "lam"); l = I.asarr(lam_) if not isscal(lam_) else lam_
        if isinstance(l, Arr) and size is None: return draw(I, o, "poisson", l.shape, "i", args=(vec(I, l),))
        raise Unsupported("poisson draw")
    def gamma(I, shape, scale=1, size=None): return draw(I, o, "gamma", None if size is None else shape_of(I, size), args=(nt(sc(I, shape)), nt(sc(I, scale))))
    def randint(I, lo, hi=None, size=None): return draw(I, o, "randint", None if size is None else shape_of(I, size), "i", args=(nt(sc(I, lo)), nt(sc(I, hi)) if hi is not None else ZERO))
    def multinomial_(I, n, pvals, size=None):
        p = I.asarr(pvals); return draw(I, o, "multinomial", p.shape, "i", args=(nt(sc(I, n)), vec(I, p)))
    m = dict(rand=rand, random_sample=random_sample, random=random_sample, uniform=uniform, dirichlet=dirichlet, multivariate_normal=mvn, choice=choice, poisson=poisson, gamma=gamma, randint=randint, multinomial=multinomial_).get(name)
    if m is None: raise Unsupported("random method " + name)
    return B("rng." + name, m)


def seed_terms(I, rs):
    rs = sc(I, rs)
    if rs is None: I.effects.append("rng.global"); return (sym("GLOBAL_STREAM", "I"), sym("GLOBAL_POS", "I"))
    if isinstance(rs, Obj): 
        s = I.heap[rs]; I.setk(rs, "pos", add(s["pos"], app("KMCONS", s["stream"], s["pos"], sort="I"))); return (s["stream"], s["pos"])
    return (nt(rs), ZERO)


def kmeans(I, n_clusters=8, random_state=None, n_init=None, **k):
    kw_(k)
    o = I.new(Obj("KMeans"), {"n": nt(sc(I, n_clusters)), "rs": random_state, "n_init": n_init}); return o


def km_fit(I, o, X):
    X = I.asarr(X); h = I.heap[o]; M = mat(I, X); st = seed_terms(I, h["rs"]); a = (h["n"], nt(h["n_init"]) if isscal(h["n_init"]) else ZERO) + st + (M,)
    I.setk(o, "args", a); I.trust.add("KMeans is a function of its arguments, its seed and the data; its labels lie in range and no cluster is empty")
    I.setk(o, "cluster_centers_", I.arr((h["n"], X.shape[1]), lambda i, j: app("KMEANS", *a, i, j)))
    I.setk(o, "labels_", I.arr((X.shape[0],), lambda i: app("KMLABEL", *a, i, sort="I"), "i"))
    return o


def obj_attr(I, o, name):
    if o.cls == "RandomState": return rng_method(I, o, name)
    if o.cls == "KMeans":
        if name == "fit": return B("KMeans.fit", lambda I, X, *a: km_fit(I, o, X))
        if name == "fit_predict": return B("KMeans.fit_predict", lambda I, X, *a: (km_fit(I, o, X), I.heap[o]["labels_"])[1])
        if name == "predict":
            def pred(I, X):
                X = I.asarr(X); a = I.heap[o]["args"]; M = mat(I, X)
                return I.arr((X.shape[0],), lambda i: app("KMPRED", *a, M, i, sort="I"), "i")
            return B("KMeans.predict", pred)
    if name == "__init_subclass__": return B("noop", lambda I, **k: None)
    return None


def np_bincount(I, a, weights=None, minlength=0):
    a = I.asarr(a); w = fresh("r"); n = a.shape[0]
    nb = nt(sc(I, minlength)) if not (isinstance(minlength, int) and minlength == 0) else sym("NBINS", "I", "pos")
    if isinstance(minlength, int) and minlength == 0:
        # number of bins = largest label + 1
        nb = add(reduce_(I, a, 0, False, f_max), 1)
        t = I.at(a, (ZERO,))
        if isinstance(t, T) and t.op == "app" and t.a[0] == "KMPRED": nb = t.a[1]   # k-means leaves no cluster empty
    wt = (lambda i: ONE) if weights is None else (lambda i: nt(I.at(weights, (i,))))
    return I.arr((nb,), lambda b: ssum(w, n, ite(eq(nt(I.at(a, (w,))), b), wt(w), ZERO)), "i" if weights is None else "f")


def np_cov(I, a, rowvar=True, ddof=None, bias=False):
    """sample covariance: an uninterpreted symmetric positive semi-definite matrix (COV) of the given observations"""
    a = I.asarr(a)
    if a.ndim != 2 or rowvar is not True or ddof is not None or bias is not False: raise Unsupported("cov")
    I.trust.add("numpy.cov of at least two observations is a symmetric positive semi-definite matrix")
    d = num(a.shape[0]); M = mat(I, a); f = lambda i, j: app("COV", M, i, j)
    if d.op != "c":
        if I.branch(eq(d, 1)): return I.arr((), lambda: f(ZERO, ZERO))
    elif d is ONE: return I.arr((), lambda: f(ZERO, ZERO))
    return I.arr((d, d), f)


def check_array(I, X, dtype="numeric", ensure_2d=True, copy=False, **k):
    kw_(k, "input_name", "estimator"); X = I.asarr(X)
    if dtype != "numeric" and dtype is not None and not (isinstance(dtype, Opaque) and dtype.what == "dtype" and dtype.kind == X.dtype): raise Unsupported("check_array dtype")
    if copy is not False: X = I.copy(X)
    if X.ndim != 2 and ensure_2d: raise PyExc("ValueError")
    I.trust.add("sklearn.check_array returns its (finite, 2-d, non-empty) argument unchanged, or raises ValueError")
    return X


def check_is_fitted(I, est, attributes=None, **k):
    kw_(k, "msg")
    names = [attributes] if isinstance(attributes, str) else (I.iterate(attributes) if attributes is not None else [])
    if not all(I.hasattr(est, n) for n in names): raise PyExc("NotFittedError")


def np_unique(I, a):
    a = I.asarr(a)
    if a.ndim == 0: return I.arr((1,), lambda i: I.at(a, ()), a.dtype)
    if a.ndim == 1 and I.branch(app("ALLEQ", vec(I, a), sort="B")): return I.arr((1,), lambda i: I.at(a, (ZERO,)), a.dtype)
    raise PyExc("ValueError")     # only used through single-element unpacking


def pmf(name, log_):
    def f(I, X, *a, **k):
        if name == "multinomial":
            kw_(k, "n", "p"); n, p = k.get("n", a[0] if a else None), k.get("p", a[1] if len(a) > 1 else None)
            X = I.asarr(X); p = I.asarr(p); n = I.asarr(n) if not isscal(n) else n
            pv = vec(I, p)
            g = lambda t: LogV(app("PMF_MULTINOMIAL", nt(I.at(n, (t,))) if isinstance(n, Arr) and n.ndim else nt(sc(I, n)), pv, vec(I, X, (t,))))
            NONNEG.add("PMF_MULTINOMIAL")
            return I.arr(X.shape[:1], (lambda t: g(t)) if log_ else (lambda t: g(t).e))
        kw_(k, "mu"); mu = k.get("mu", a[0] if a else None)
        NONNEG.add("PMF_POISSON")
        r = I.ew(lambda x, m: app("PMF_POISSON", nt(x), nt(m)), X, mu, dtype="f")
        return I.ew(lambda v: LogV(v), r, dtype="f") if log_ else r
    return f


def mn_rvs(I, n, p, size=None, random_state=None):
    rs = check_random_state(I, random_state); p = I.asarr(p)
    return draw(I, rs, "multinomial_rvs", (ONE, p.shape[0]) if False else p.shape, "i", args=(nt(sc(I, n)), vec(I, p)))


def add_at(I, a, idx, v):
    """np.add.at(a, idx, v): a[idx[t]] += v[t] for every t"""
    idx = I.asarr(idx); v = I.asarr(v)
    if idx.ndim != 1: raise Unsupported("add.at index")
    n = num(idx.shape[0]); w = fresh("r")
    v = I.bcast(v, (n,) + tuple(a.shape[1:]))
    r = I.arr(a.shape, lambda *ix: add(nt(I.at(a, ix)), ssum(w, n, ite(eq(nt(I.at(idx, (w,))), ix[0]), nt(I.at(v, (w,) + ix[1:])), ZERO))))
    I.store(a, r)


def deque_(I, it=(), maxlen=None):
    if maxlen is not None: raise Unsupported("bounded deque")
    return I.new(ListV(), tuple(I.iterate(it)))


def finfo(I, *a): return Opaque("finfo")


ctxm = lambda I, *a, **k: Opaque("context")
CONT = {"inf": float("inf"), "pi": sym("PI", "R", "pos"), "newaxis": None, "nan": Opaque("nan")}

OPEN = {"sum", "prod", "max", "amax", "min", "amin", "cumsum", "array", "diag", "diagonal", "trace", "transpose", "outer", "dot", "matmul", "einsum", "where", "maximum", "minimum", "abs", "absolute", "square", "tile", "repeat",
        "broadcast_to", "reshape", "squeeze", "expand_dims", "atleast_2d", "concatenate", "stack", "copy", "add", "subtract", "multiply", "power", "negative", "clip", "take", "ravel", "flatten", "swapaxes"}


def keep_open(name, f):
    """the element type of the result is open (integer or real) where it is for every operand"""
    if name not in OPEN: return f
    def flat(x):
        if isinstance(x, Arr): yield x
        elif isinstance(x, (list, tuple)):
            for y in x: yield from flat(y)
    def g(I, *a, **k):
        r = f(I, *a, **k)
        if isinstance(r, Arr) and r.dtype == "f" and "dtype" not in k and not (name == "array" and len(a) > 1):
            xs = list(flat(a))
            if xs and all(getattr(x.cell, "anytype", False) or x.dtype in "ib" for x in xs): r.cell.anytype = True
        return r
    return g


NP = dict(sum=np_sum, prod=np_prod, max=np_max, amax=np_max, min=np_min, amin=np_min, any=np_any, all=np_all, argmax=np_argmax, mean=np_mean, var=np_var, cumsum=np_cumsum,
          asarray=np_asarray, array=np_array, ascontiguousarray=np_asarray, full=np_full, zeros=np_zeros, ones=np_ones, empty=np_empty, zeros_like=like(np_zeros), ones_like=like(np_ones), empty_like=like(np_empty),
          eye=np_eye, identity=np_eye, arange=np_arange, diag=np_diag, diagonal=np_diagonal, trace=np_trace, transpose=np_transpose, outer=np_outer, dot=np_dot, matmul=matmul, einsum=np_einsum,
          where=np_where, maximum=np_maximum, minimum=np_minimum, log=np_log, exp=np_exp, sqrt=np_sqrt, abs=np_abs, absolute=np_abs, square=np_square, tile=np_tile, repeat=np_repeat,
          broadcast_to=np_broadcast_to, reshape=np_reshape, squeeze=np_squeeze, expand_dims=np_expand, atleast_2d=np_atleast_2d, concatenate=np_concatenate, stack=np_stack, split=np_split,
          allclose=np_allclose, errstate=ctxm, copy=lambda I, a: I.copy(I.asarr(a)), bincount=np_bincount, cov=np_cov, unique=np_unique, finfo=finfo,
          add=ufunc(s_add), subtract=ufunc(s_sub), multiply=ufunc(s_mul), divide=ufunc(s_div), true_divide=ufunc(s_div), power=ufunc(s_pow), negative=ufunc(s_neg),
          array_equal=lambda I, a, b: np_all(I, I.ew(lambda x, y: s_cmp("==", x, y), a, b, dtype="b")),
          real_if_close=lambda I, a: a, logaddexp=ufunc(lambda a, b: LogV(add(lg(a).e, lg(b).e))), isscalar=lambda I, v: isscal(v), ndim=lambda I, v: I.asarr(v).ndim, shape=lambda I, v: tuple(simp0(d) for d in I.asarr(v).shape),
          log1p=ufunc(lambda a: s_log(s_add(1, a))), size=lambda I, a: attr(I, I.asarr(a), "size"), vstack=np_vstack, hstack=np_hstack, column_stack=np_column_stack, tensordot=np_tensordot, inner=np_inner, vdot=np_inner, clip=np_clip, argmin=np_argmin, count_nonzero=np_count_nonzero, take=np_take, isclose=np_isclose,
          full_like=lambda I, a, v, dtype=None, **k: np_full(I, tuple(I.asarr(a).shape), v, dtype if dtype is not None else dtype_of(I, a if isinstance(a, (T, Arr)) else I.asarr(a))),
          amin_=None, sign=None, float_power=ufunc(s_pow), fabs=np_abs, ravel=lambda I, a: np_reshape(I, a, -1), logical_and=ufunc(lambda a, b: and_(tb(a), tb(b))), logical_or=ufunc(lambda a, b: or_(tb(a), tb(b))), logical_not=ufunc(lambda a: not_(tb(a))),
          greater=ufunc(lambda a, b: s_cmp(">", a, b)), less=ufunc(lambda a, b: s_cmp("<", a, b)), equal=ufunc(lambda a, b: s_cmp("==", a, b)), not_equal=ufunc(lambda a, b: s_cmp("!=", a, b)), greater_equal=ufunc(lambda a, b: s_cmp(">=", a, b)), less_equal=ufunc(lambda a, b: s_cmp("<=", a, b)),
          isnan=ufunc(s_isnan), isfinite=ufunc(s_isfinite), isinf=ufunc(lambda x: s_not(s_isfinite(x))), isneginf=ufunc(lambda x: s_not(s_isfinite(x))), reciprocal=ufunc(lambda a: s_div(1, a)), average=np_average, moveaxis=np_moveaxis, swapaxes=lambda I, a, x, y: np_transpose(I, a, _swap(I.asarr(a).ndim, x, y)))


def _swap(n, x, y):
    p = list(range(n)); p[x % n], p[y % n] = p[y % n], p[x % n]; return tuple(p)


def with_out(f):
    """functions whose result is copied into out= where that is given"""
    def g(I, *a, out=None, **k):
        r = f(I, *a, **k)
        return r if out is None else outp(I, r, out)
    return g


WITH_OUT = {"sum", "prod", "max", "amax", "min", "amin", "any", "all", "argmax", "mean", "dot", "einsum", "cumsum", "matmul", "take", "clip", "sqrt", "abs", "absolute"}
NP.update({k: with_out(f) for k, f in NP.items() if k in WITH_OUT})
NP.update({k: keep_open(k, f) for k, f in NP.items() if callable(f)})
TABLE = {"numpy": NP,
         "numpy.linalg": dict(inv=la_inv, slogdet=la_slogdet, det=la_det, solve=la_solve, eigvalsh=la_eigvalsh, norm=la_norm, cholesky=lambda I, a: la_cholesky(I, a, lower=True)),
         "scipy.linalg": dict(inv=la_inv, cholesky=la_cholesky, solve_triangular=la_solve_triangular, eigvalsh=la_eigvalsh, eig=la_eig, solve=la_solve, det=la_det),
         "scipy.special": dict(digamma=special1("digamma"), psi=special1("digamma"), gammaln=special1("gammaln"), loggamma=special1("gammaln"), logsumexp=sp_logsumexp),
         "sklearn.utils": dict(check_random_state=check_random_state, check_array=check_array),
         "sklearn.utils.validation": dict(check_random_state=check_random_state, check_array=check_array, check_is_fitted=check_is_fitted),
         "sklearn.cluster": dict(KMeans=kmeans),
         "math": dict(log=lambda I, x: s_log(sc(I, x)), exp=lambda I, x: s_exp(sc(I, x)), sqrt=lambda I, x: sqrt(nt(sc(I, x))), fabs=lambda I, x: s_abs(sc(I, x)), prod=lambda I, it, start=1: m_prod(I, it, start), fsum=lambda I, it: b_sum(I, it), lgamma=lambda I, x: app("gammaln", nt(sc(I, x)))),
         "functools": dict(partial=lambda I, f, *a, **k: B("partial", lambda I, *b, **kk: I.call(f, list(a) + list(b), {**k, **kk})), reduce=lambda I, f, it, *init: f_reduce(I, f, it, *init)),
         "itertools": dict(product=lambda I, *its: it_product(I, *its), chain=lambda I, *its: tuple(x for it in its for x in lst(I, it)))}


def lst(I, it):
    x = I.iterate(it)
    if not isinstance(x, list): raise Unsupported("itertools over a symbolic range")
    return x


def it_product(I, *its):
    import itertools as _it
    ls = [I.iterate(x) for x in its]
    if all(isinstance(x, list) for x in ls): return tuple(_it.product(*ls))
    raise Unsupported("product of symbolic ranges")


def f_reduce(I, f, it, *init):
    xs = lst(I, it)
    r = init[0] if init else xs.pop(0)
    for x in xs: r = I.call(f, [r, x])
    return r


def m_prod(I, it, start=1):
    s = I.seq(it)
    if isinstance(s, Seq): return s_mul(start, np_prod(I, I.stackseq(s)))
    r = start
    for x in s: r = s_mul(r, sc(I, x))
    return r
DT = {"float64": "f", "float_": "f", "int64": "i", "intp": "i", "integer": "i", "floating": "f", "number": "n", "bool_": "b", "int_": "i"}


def attr(I, o, name):
    if isinstance(o, ModV):
        p = o.path
        if p == "numpy":
            if name in CONT: return CONT[name]
            if name in DT: return Opaque("dtype", kind=DT[name])
            if name in ("linalg", "random"): return ModV("numpy." + name)
            if name == "issubdtype": return B("np.issubdtype", lambda I, a, b: (a.kind == b.kind) or (b.kind == "n" and a.kind in "if"))
            if name in ("add", "multiply", "maximum", "minimum", "logaddexp", "subtract"):
                return UFunc(name)
        if p == "math" and name in ("inf", "pi"): return CONT[name]
        if name in ("LinAlgError",): return ExcClass("LinAlgError")
        if p in TABLE and name in TABLE[p] and TABLE[p][name] is not None:
            USED.add(p + "." + name); return B(p + "." + name, TABLE[p][name])
        full = p + "." + name
        if full in ("scipy.linalg", "scipy.special", "scipy.stats", "sklearn.cluster", "sklearn.utils", "sklearn.base", "numpy.linalg", "sklearn.utils.validation"): return ModV(full)
        if full == "sklearn.base.BaseEstimator": return Opaque("BaseEstimator")
        if full == "logging.getLogger": return B("logging.getLogger", lambda I, *a: Opaque("logger"))
        if full == "warnings.warn": return B("warnings.warn", lambda I, *a, **k: None)
        if full in ("scipy.stats.multinomial", "scipy.stats.poisson"): return Opaque("dist", dist=name)
        if full == "string.ascii_letters": return string.ascii_letters
        if full == "sys.stderr": return Opaque("stderr")
        if full == "collections.deque": return B("deque", deque_)
        if full == "numbers.Number": return Opaque("Number")
        if p == "_hmmc":
            k = (I.natives or {}).get(name)
            if k is None: raise Unsupported("native function " + name)
            return B("_hmmc." + name, k)
        if full.startswith("sklearn.utils."): pass
        return Poison("external name " + full)
    if isinstance(o, UFunc):
        if name == "at" and o.name == "add": return B("np.add.at", add_at)
        if name == "reduce" and o.name in RED: return B("np.%s.reduce" % o.name, red(RED[o.name]))
        if name == "outer" and o.name in ("add", "multiply", "subtract"): return B("np.%s.outer" % o.name, lambda I, a, b: NP[o.name](I, I.index(I.asarr(a), (Ellipsis,) + (None,) * I.asarr(b).ndim), b))
    if isinstance(o, Arr): return arr_attr(I, o, name)
    if isinstance(o, Opaque):
        if o.what == "logger": return B("log.effect", lambda I, *a, **k: None)
        if o.what == "dist":
            if name in ("pmf", "logpmf"): return B(f"scipy.stats.{o.dist}.{name}", pmf(o.dist, name == "logpmf"))
            if name == "rvs" and o.dist == "multinomial": return B("multinomial.rvs", mn_rvs)
        if o.what == "finfo":
            if name == "eps": return num(EPS)
            if name == "tiny": return sym("TINY", "R", "pos")
        if o.what == "dtype" and name == "kind": return o.kind
        if o.what == "str": return B("str." + name, lambda I, *a, **k: Opaque("str"))
        if name == "__doc__": return Opaque("str")
        if o.what == "exception": return Opaque("str")
    if isinstance(o, str):
        if name == "join": return B("str.join", lambda I, *a: Opaque("str"))
        if name == "format": return B("str.format", lambda I, *a, **k: Opaque("str"))
        if name in ("startswith", "endswith", "lower", "upper", "strip"): return B("str." + name, lambda I, *a: getattr(o, name)(*a))
    if isinstance(o, (ListV,)):
        if name == "append": return B("list.append", lambda I, x: list_append(I, o, x))
        if name == "extend": return B("list.extend", lambda I, xs: [list_append(I, o, x) for x in I.seq(xs)] and None)
        if name == "clear": return B("list.clear", lambda I: I.sets(o, ()))
        if name == "copy": return B("list.copy", lambda I: I.new(ListV(), I.heap[o]))
    if isinstance(o, DictV):
        d = I.heap[o]
        if name == "items": return B("dict.items", lambda I: tuple((k, v) for k, v in I.heap[o].items()))
        if name == "keys": return B("dict.keys", lambda I: tuple(I.heap[o].keys()))
        if name == "values": return B("dict.values", lambda I: tuple(I.heap[o].values()))
        if name == "get": return B("dict.get", lambda I, k, dv=None: I.heap[o].get(k, dv))
        if name == "copy": return B("dict.copy", lambda I: I.new(DictV(), dict(I.heap[o])))
        if name == "pop": 
            def pop(I, k, *dv):
                if k in I.heap[o]:
                    v = I.heap[o].pop(k); I.log(o, k); return v
                if dv: return dv[0]
                raise PyExc("KeyError")
            return B("dict.pop", pop)
        if name == "update":
            def upd(I, *a, **k):
                for x in a:
                    for kk, v in I.heap[x].items(): I.setk(o, kk, v)
                for kk, v in k.items(): I.setk(o, kk, v)
            return B("dict.update", upd)
    if isscal(o):
        if name in ("sum", "mean", "max", "min", "copy", "item"): return B("scalar." + name, lambda I, *a, **k: o)
        if name == "ndim": return 0
        if name == "shape": return ()
        if name == "real": return o
        if name == "squeeze": return B("scalar.squeeze", lambda I, *a: o)
        if name in ("any", "all"): return B("scalar." + name, lambda I, *a: tb(o))
        if name == "dtype": return dtype_of(I, o)
    if isinstance(o, Poison): raise Unsupported(o.why)
    if isinstance(o, ClassV) and name == "__init_subclass__": return B("noop", lambda I, **k: None)
    raise PyExc("AttributeError", (name, repr(o)))


RED = dict(add=np_sum, multiply=np_prod, maximum=lambda I, a, axis, keepdims=False: np_max(I, a, axis, keepdims=keepdims), minimum=lambda I, a, axis, keepdims=False: np_min(I, a, axis, keepdims=keepdims),
           logaddexp=lambda I, a, axis, keepdims=False: sp_logsumexp(I, a, axis, keepdims=keepdims))


class UFunc:
    def __init__(self, name): self.name = name
    def call(self, I, *a, **k): return NP[self.name](I, *a, **k)


def list_append(I, o, x):
    s = I.heap[o]
    if isinstance(s, tuple): I.sets(o, s + (x,))
    else: I.sets(o, Seq(s.parts + [("one", x)]))


def arr_attr(I, a, name):
    if name == "shape": return tuple(simp0(num(d)) for d in a.shape)
    if name == "ndim": return a.ndim
    if name == "size": return simp0(mul(ONE, *[num(d) for d in a.shape]))
    if name == "T": return np_transpose(I, a)
    if name == "dtype": return dtype_of(I, a)
    if name == "real": return a
    if name == "flat": return np_reshape(I, a, (-1,)) if a.ndim > 1 else a
    m = {"sum": np_sum, "mean": np_mean, "max": np_max, "min": np_min, "any": np_any, "all": np_all, "argmax": np_argmax, "prod": np_prod, "var": np_var, "cumsum": np_cumsum,
         "copy": lambda I, a, order=None: I.copy(a), "squeeze": np_squeeze, "reshape": np_reshape, "trace": np_trace, "dot": np_dot, "diagonal": np_diagonal,
         "transpose": lambda I, a, *ax: np_transpose(I, a, None if not ax else (ax[0] if len(ax) == 1 and not isinstance(ax[0], int) else ax)),
         "astype": lambda I, a, d, copy=True: np_array(I, a, d), "fill": lambda I, a, v: I.store(a, v),
         "ravel": lambda I, a: np_reshape(I, a, -1), "flatten": lambda I, a: I.copy(np_reshape(I, a, -1)), "repeat": np_repeat,
         "clip": np_clip, "take": np_take, "argmin": np_argmin, "swapaxes": lambda I, a, x, y: np_transpose(I, a, _swap(a.ndim, x, y)), "tolist": lambda I, a: b_list(I, a),
         "item": lambda I, a: I.at(a, (ZERO,) * a.ndim), "view": lambda I, a: a}.get(name)
    if m is not None: USED.add("ndarray." + name); return B("ndarray." + name, lambda I, *x, **k: keep_open(name, with_out(m) if name in WITH_OUT else m)(I, a, *x, **k))
    raise PyExc("AttributeError", (name,))


# --------------------------------------------------------------- builtins
def b_range(I, *a):
    a = [sc(I, x) for x in a]
    a = [simp0(x) if isinstance(x, T) else x for x in a]
    a = [int(x) if isinstance(x, T) and x.op == "c" else x for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    return RangeV(lo, hi, st)


def b_sum(I, it, start=0):
    s = I.seq(it)
    if isinstance(s, Seq):
        r = start
        for p in s.parts:
            if p[0] == "one": r = add_any(I, r, p[1])
            else:
                if not isscal(p[3]): raise Unsupported("sum of a family of arrays")
                v = fresh("r"); r = s_add(r, ssum(v, num(p[1]), subst(nt(p[3]), {p[2]: v})))
        return r
    r = start
    for x in s: r = add_any(I, r, x)
    return r


def add_any(I, a, b): return I.ew(s_add, a, b)


def b_max(I, *a, **k):
    xs = [sc(I, x) for x in (a if len(a) > 1 else I.seq(a[0]))]
    if k: raise Unsupported("max with key")
    r = xs[0]
    # Python's max(a, b) returns a when the two are equal: the same number
    for x in xs[1:]: r = s_max(r, x)
    return r


def b_min(I, *a):
    xs = [sc(I, x) for x in (a if len(a) > 1 else I.seq(a[0]))]
    r = xs[0]
    for x in xs[1:]: r = s_min(r, x)
    return r


def b_zip(I, *its):
    its = [I.iterate(x) for x in its]
    if all(isinstance(x, list) for x in its): return tuple(zip(*its))
    ns = [num(len(x)) if isinstance(x, list) else num(x.n) for x in its]
    sy = [x for x in its if isinstance(x, SymIter)]
    n = num(sy[0].n)
    for m in ns:
        if not I.deq(m, n): raise Unsupported("zip of different lengths")
    def item(k):
        return tuple(x.item(k) if isinstance(x, SymIter) else I.index(I.asarr(tuple(x)), (k,)) for x in its)
    return SymIter(n, item)


def b_enumerate(I, it, start=0):
    it = I.iterate(it)
    if isinstance(it, list): return tuple((i + start, x) for i, x in enumerate(it))
    return SymIter(it.n, lambda k: (s_add(k, start), it.item(k)))


def b_map(I, f, *its):
    its2 = [I.iterate(x) for x in its]
    if all(isinstance(x, list) for x in its2): return tuple(I.call(f, xs) for xs in zip(*its2))
    z = b_zip(I, *its) if len(its) > 1 else I.iterate(its[0])
    k = fresh("s"); ctx0 = I.ctx; I.ctx = ctx0.extend(le(0, k), lt(k, num(z.n)))
    try: v = I.call(f, z.item(k) if len(its) > 1 else (z.item(k),))
    finally: I.ctx = ctx0
    return Seq([("many", num(z.n), k, v)])


def b_isinstance(I, v, cls):
    cs = cls if isinstance(cls, tuple) else (cls,)
    for c in cs:
        if isinstance(c, ClassV):
            if isinstance(v, Obj) and isinstance(v.cls, ClassV) and c in v.cls.mro(): return True
            continue
        nm = c.name if isinstance(c, Builtin) else getattr(c, "what", None)
        if nm in ("Number",):
            if isscal(v): return True
            continue
        if nm == "int":
            if isinstance(v, int) or isinstance(v, T) and v.sort == "I": return True
            continue
        if nm == "float":
            if isinstance(v, (float, Fraction, LogV)) or isinstance(v, T) and v.sort == "R": return True
            continue
        if nm == "str":
            if isinstance(v, str): return True
            continue
        if nm in ("list", "deque"):
            if isinstance(v, ListV): return True
            continue
        if nm == "tuple":
            if isinstance(v, tuple): return True
            continue
        if nm == "dict":
            if isinstance(v, DictV): return True
            continue
        if nm in ("numpy.array",): continue
        raise Unsupported("isinstance %r" % (c,))
    return False


def b_len(I, v): return I.length(v)


def b_abs(I, v): return I.ew(s_abs, v)


def b_float(I, v=0):
    v = sc(I, v)
    if isinstance(v, Arr): v = I.at(v, (ZERO,) * v.ndim)
    if isinstance(v, str): return float(v)
    if isinstance(v, (T, LogV, float)): return v
    if isinstance(v, (int, Fraction)): return num(v)
    raise Unsupported("float() of %s" % type(v).__name__)


def b_int(I, v=0):
    v = sc(I, v)
    if isinstance(v, (int,)): return v
    if isinstance(v, T) and v.sort == "I": return v
    raise Unsupported("int()")


def b_list(I, it=()):
    s = I.seq(it)
    return I.new(ListV(), s if isinstance(s, Seq) else tuple(s))


def b_tuple(I, it=()):
    s = I.seq(it)
    if isinstance(s, Seq): return s
    return tuple(s)


def b_getattr(I, o, n, *d):
    if not isinstance(n, str): raise Unsupported("getattr name")
    if d:
        try: return I.getattr(o, n)
        except PyExc as e:
            if e.name == "AttributeError": return d[0]
            raise
    return I.getattr(o, n)


def b_anyall(which):
    def f(I, it):
        s = I.seq(it)
        if isinstance(s, Seq):
            a = I.stackseq(s); return (np_any if which == "any" else np_all)(I, a)
        r = which == "all"
        cs = [tb(x) if isinstance(x, (T, LogV)) else I.truth(x) for x in s]
        return (or_ if which == "any" else and_)(*[tm(c) for c in cs])
    return f


def b_type(I, v):
    if isinstance(v, Obj): return v.cls
    raise Unsupported("type()")


def b_dict(I, *a, **k):
    d = {}
    for x in a: d.update(I.heap[x] if isinstance(x, DictV) else dict(I.iterate(x)))
    d.update(k); return I.new(DictV(), d)


def b_reversed(I, it):
    it = I.iterate(it)
    if isinstance(it, list): return tuple(reversed(it))
    return SymIter(it.n, lambda k: it.item(sub(sub(num(it.n), 1), k)))


def b_sorted(I, it):
    s = I.seq(it)
    if isinstance(s, list) and all(isinstance(x, (str, int)) for x in s): return I.new(ListV(), tuple(sorted(s)))
    raise Unsupported("sorted")


BUILTINS = {k: B(k, f) for k, f in dict(len=b_len, range=b_range, sum=b_sum, max=b_max, min=b_min, zip=b_zip, enumerate=b_enumerate, map=b_map, isinstance=b_isinstance, hasattr=lambda I, o, n: I.hasattr(o, n),
            getattr=b_getattr, abs=b_abs, float=b_float, int=b_int, list=b_list, tuple=b_tuple, any=b_anyall("any"), all=b_anyall("all"), type=b_type, dict=b_dict, reversed=b_reversed, sorted=b_sorted,
            str=lambda I, *a: Opaque("str"), repr=lambda I, *a: Opaque("str"), bool=lambda I, v=False: I.truth(v) if not (isinstance(v, T) and v.sort == "B") else v,
            setattr=lambda I, o, n, v: I.setattr(o, n, v), set=lambda I, it=(): frozenset(I.iterate(it)), frozenset=lambda I, it=(): frozenset(I.iterate(it)), callable=lambda I, v: isinstance(v, (FuncV, BoundM, Builtin, ClassV)),
            iter=lambda I, v: v, divmod=lambda I, a, b: (s_floordiv(sc(I, a), sc(I, b)), s_mod(sc(I, a), sc(I, b))), pow=lambda I, a, b: I.ew(s_pow, a, b), round=None, next=None).items() if f}
BUILTINS["print"] = B("builtins.print", lambda I, *a, **k: None)
BUILTINS["True"], BUILTINS["False"], BUILTINS["None"] = True, False, None
BUILTINS["Ellipsis"] = Ellipsis
BUILTINS["__name__"] = "hmmlearn"
for _n in list(EXC_BASES) + ["Exception", "RuntimeError", "DeprecationWarning", "RuntimeWarning", "UserWarning", "BaseException", "FutureWarning", "OverflowError", "StopIteration", "ArithmeticError", "LookupError"]:
    BUILTINS[_n] = ExcClass(_n)
BUILTINS["property"] = B("property", lambda I, f: PropV(f))


# -------------------------------------------------- laws of the matrix functions
def diag_of(ctx, M):
    """d (as lam over one index) if M = lam r,c. [r = c] d(r) provably, else None"""
    (r, c), (n, m), b = M.a
    c2 = ctx.extend(le(0, r), lt(r, n), le(0, c), lt(c, n), not_(eq(r, c)))
    from .nf import expand
    if expand(b, c2): return None
    i = fresh("l")
    return i, n, subst(b, {r: i, c: i})


def is_zero_matrix(M): return M.a[2] is ZERO


def scalar_factor(ctx, M):
    """(s, M') with M = s*M', s positive and free of the indices"""
    (r, c), dims, b = M.a
    from .nf import expand, common, collect, toterm
    p = expand(b, ctx.extend(le(0, r), lt(r, dims[0]), le(0, c), lt(c, dims[1])))
    if not p: return None
    com = {a: e for a, e in common(p).items() if not (fv(a) & {r, c}) and a.sort != "B" and not any(v.a[0].startswith("#") for v in fv(a)) }
    com = {a: e for a, e in com.items() if sign(a, ctx) == 2}
    coef = [m[0] for m in p]; k = abs(coef[0]) if len(p) == 1 else Fraction(1)
    if len(p) > 1:
        # common rational content
        import math
        g = coef[0]
        for x in coef[1:]:
            x1, x2 = abs(g), abs(x)
            g = Fraction(math.gcd(x1.numerator * x2.denominator, x2.numerator * x1.denominator), x1.denominator * x2.denominator)
        k = abs(g)
    if not com and k == 1: return None
    q = collect([(cf / k, bb, {a: e - com.get(a, 0) for a, e in list(f.items()) + [(a, 0) for a in com if a not in f] if e != com.get(a, 0)}) for cf, bb, f in p], ctx)
    return mul(num(k), *[pw(a, e) for a, e in com.items()]), lam((r, c), dims, toterm(q))


def n_inv(ctx, args):
    M, i, j = args
    if M.op != "lam": return None
    (r, c), (n, m), b = M.a
    if n is ONE: return pw(subst(b, {r: ZERO, c: ZERO}), -1)
    d = diag_of(ctx, M)
    if d is not None:
        v, _, e = d
        return ite(eq(i, j), pw(subst(e, {v: i}), -1), ZERO)
    s = scalar_factor(ctx, M)
    if s is not None: return div(app("INV", s[1], i, j), s[0])
    if b.op == "app" and b.a[0] == "INV" and b.a[2] is r and b.a[3] is c: return lam_at(b.a[1], i, j)      # inverse of an inverse
    return None


def n_logdet(ctx, args):
    M, = args
    if M.op != "lam": return None
    (r, c), (n, m), b = M.a
    d = diag_of(ctx, M)
    if d is not None: return ssum(d[0], n, log(d[2]))
    s = scalar_factor(ctx, M)
    if s is not None: return add(mul(n, log(s[0])), app("LOGDET", s[1]))
    if b.op == "app" and b.a[0] == "INV" and b.a[2] is r and b.a[3] is c: return neg(app("LOGDET", b.a[1]))
    return None


def n_abs(ctx, args):
    x = args[0]
    if x.op == "c": return num(abs(x.a[0]))
    if sign(x, ctx) in (1, 2, 3): return x
    return None


Rules.appnorm["abs"] = n_abs
Rules.appnorm["INV"] = n_inv
Rules.appnorm["LOGDET"] = n_logdet
Rules.appnorm["DETSIGN"] = lambda ctx, args: ONE     # matrices in scope are positive definite (precondition)


def m_chol(ctx, c, b, f):
    """sum_i TRISOL(CHOL(M), v, i)^2 = v' M^-1 v ;  sum_i log CHOL(M,i,i) = LOGDET(M)/2"""
    for v, n in b:
        for a, e in f.items():
            if a.op == "app" and a.a[0] == "TRISOL" and e == 2 and a.a[3] is v and a.a[1].op == "lam":
                L, x = a.a[1], a.a[2]; (r, s), dims, body = L.a
                if body.op == "app" and body.a[0] == "CHOL" and body.a[2] is r and body.a[3] is s and dims[0] is n and not any(v in fv(y) for y in list(f) if y is not a):
                    i, j = fresh("b"), fresh("b")
                    t = mul(app("INV", body.a[1], i, j), lam_at(x, i), lam_at(x, j))
                    from .nf import expand
                    rest = {y: q for y, q in f.items() if y is not a}
                    b2 = tuple(p for p in b if p[0] is not v)
                    c2 = ctx.extend(*[k for w, m in b2 for k in (le(0, w), lt(w, m))]) if b2 else ctx
                    return [(c * m[0], b2 + m[1], m[2]) for m in expand(mul(ssum(i, n, ssum(j, n, t)), *[pw(y, q) if y.sort != "B" else ite(y, ONE, ZERO) for y, q in rest.items()]), c2)]
            if a.op == "app" and a.a[0] == "log" and e == 1:
                y = a.a[1]
                if y.op == "app" and y.a[0] == "CHOL" and y.a[2] is v and y.a[3] is v and not any(v in fv(z) for z in f if z is not a):
                    M = y.a[1]
                    if M.a[1][0] is n:
                        rest = {z: q for z, q in f.items() if z is not a}; b2 = tuple(p for p in b if p[0] is not v)
                        t = mul(num(c / 2), app("LOGDET", M), *[pw(z, q) if z.sort != "B" else ite(z, ONE, ZERO) for z, q in rest.items()])
                        from .nf import expand
                        c2 = ctx.extend(*[k for w, m in b2 for k in (le(0, w), lt(w, m))]) if b2 else ctx
                        return [(m[0], m[1] + b2, m[2]) for m in expand(t, c2)]
    return None


Rules.mono.append(m_chol)


def m_dirichlet(ctx, c, b, f):
    """a Dirichlet draw sums to one"""
    for v, n in b:
        for a, e in f.items():
            if a.op == "app" and a.a[0] == "DRAW_dirichlet" and e == 1 and a.a[-1] is v and a.a[3].op == "lam" and (a.a[3].a[1][0] is n or ctx.decide(eq(a.a[3].a[1][0], n)) is True) and not any(v in fv(y) for y in list(f) if y is not a) and not any(v in fv(y) for y in a.a[1:-1]) and not any(v in fv(m) for _, m in b):
                return [(c, tuple(p for p in b if p[0] is not v), {y: q for y, q in f.items() if y is not a})]
    return None


Rules.mono.append(m_dirichlet)
for _n in ("dirichlet", "rand", "gamma"): NONNEG.add("DRAW_" + _n)


def n_cov(ctx, args):
    """symmetric: indices in a fixed order"""
    M, i, j = args
    if i is j or i.op == "c" and j.op != "c": return None
    if (j.op == "c" and i.op != "c") or repr(j) < repr(i): return app("COV", M, j, i)
    return None


Rules.appnorm["COV"] = n_cov


def psd_plus(ctx, M):
    """the matrix is a sum of non-negative multiples of sample covariances and of positive multiples of the identity"""
    if M.op != "lam" or len(M.a[0]) != 2: return False
    (i, j), (n, m), b = M.a
    if n is not m and ctx.decide(eq(n, m)) is not True: return False
    if n is ONE or ctx.decide(eq(n, 1)) is True:
        return nf.sign(nf.canon(subst(b, {i: ZERO, j: ZERO}), ctx), ctx) == 2 or _pp(ctx, nf.canon(subst(b, {i: ZERO, j: ZERO}), ctx), None, None)
    return _pp(ctx, nf.canon(b, ctx), i, j)


def _pp(ctx, b, i, j):
    strict = False
    for t in (b.a if b.op == "+" else (b,)):
        fs = t.a if t.op == "*" else (t,)
        cov = [x for x in fs if x.op == "app" and x.a[0] == "COV"]; dia = [x for x in fs if x.op == "ite" and x.a[0].op == "eq0"]
        rest = [x for x in fs if x not in cov and x not in dia]
        if any(i in fv(x) or j in fv(x) for x in rest if i is not None): return False
        ss = [nf.sign(x, ctx) for x in rest]
        if any(x not in (1, 2) for x in ss): return False
        if len(cov) == 1 and not dia:
            if i is not None and {cov[0].a[2], cov[0].a[3]} != {i, j}: return False
            if i is None and cov[0].a[2] is not cov[0].a[3]: return False
            if i is not None and (i in fv(cov[0].a[1]) or j in fv(cov[0].a[1])): return False
        elif len(dia) == 1 and not cov and i is not None:
            q = dia[0]
            if q.a[1] is not ONE or q.a[2] is not ZERO or canon(q.a[0], ctx) is not canon(eq(i, j), ctx) and canon(q.a[0], ctx) is not canon(eq(j, i), ctx): return False
            strict |= all(x == 2 for x in ss)
        elif not cov and not dia and i is None: strict |= all(x == 2 for x in ss)
        else: return False
    return strict


_busy = []


def p_eig(t, ctx):
    if _busy or ctx is None: return False
    _busy.append(1)
    try: return _p_eig(t, ctx)
    finally: _busy.pop()


def _p_eig(t, ctx):
    """eigenvalues of such a matrix, and its diagonal entries and trace, are positive"""
    if t.op == "app" and t.a[0] == "EIGH": return psd_plus(ctx, t.a[1])
    if t.op == "sum" and t.a[2].op == "sum" and t.a[1] is t.a[2].a[1]: return psd_plus(ctx, lam((t.a[0], t.a[2].a[0]), (t.a[1], t.a[1]), t.a[2].a[2]))
    return False


Rules.pos.append(p_eig)
POS_PD = lambda c, I: True if c.op == "app" and c.a[0] == "PD" and psd_plus(I.ctx, c.a[1]) else None



def m_seg(ctx, c, b, f): return None
