"""Contracts of the C++ kernels and their verification, function by function."""
import time
from fractions import Fraction
from .terms import *
from .terms import mk
from .val import *
from .nf import Ctx, Prover, canon, Rules
from .interp import Interp
from . import spec, cxx, npm, nf, numeric
from .pyexec import Py

n, T = sym("N", "I", "pos"), sym("T", "I", "pos")
import os
DEBUG = os.environ.get('HMMV_DEBUG'); XCHECK = os.environ.get('HMMV_XCHECK')
BASE = [le(1, n), le(1, T)]


def inp(I, name, shape, kind="nonneg"):
    """a parameter array: unknown content, unknown (not necessarily contiguous) layout"""
    if kind == "nonneg": NONNEG.add(name)
    if kind == "log": NONNEG.add(name)
    a = I.arr(shape, lambda *ix: LogV(app(name, *ix)) if kind == "log" else app(name, *ix))
    a.cell.contig = False
    return a


def L(name, *dims):
    vs = tuple(fresh("l") for _ in dims)
    return lam(vs, dims, app(name, *vs))


p_, A_, B_ = L("sp", n), L("tm", n, n), L("fp", T, n)
c_ = L("sc", T)


def Zt(t): return spec.Z(p_, A_, B_, t)


# ------------------------------------------------------------------ contracts
class K:
    """contract of a kernel: requires (shapes), ensures (result as terms over the arguments), raises"""
    cands = ()
    def requires(self, I, *a): return []
    def raises(self, I, *a): return None      # term: condition under which ValueError may be raised


def lmat(I, a):
    """lam of an array; log-domain content is exponentiated"""
    vs = tuple(fresh("l") for _ in a.shape)
    v = I.at(a, vs)
    return lam(vs, a.shape, lg(v).e if islog(v) else nt(v))


def llog(I, a):
    """lam of exp(a) for an array holding log-probabilities"""
    vs = tuple(fresh("l") for _ in a.shape)
    return lam(vs, a.shape, lg(I.at(a, vs)).e)


def same(I, *pairs): return [eq(num(x), num(y)) for x, y in pairs]


def pab(I, p, A, B, logB): return lmat(I, p), lmat(I, A), (llog(I, B) if logB else lmat(I, B))


def shapes(I, p, A, B):
    N = B.shape[1]
    return same(I, (p.shape[0], N), (A.shape[0], N), (A.shape[1], N)) + [le(1, num(B.shape[0])), le(1, num(N))]


class Logaddexp(K):
    name = "logaddexp"
    def setup(self, I): return [LogV(sym("xa", "R", "nonneg")), LogV(sym("xb", "R", "nonneg"))]
    def ensures(self, I, a, b): return LogV(add(lg(a).e, lg(b).e))


class Logsumexp(K):
    name = "logsumexp"
    def setup(self, I):
        v = inp(I, "xv", (n,), "log"); v.cell.contig = True
        return [("flat", v, ZERO), n]
    def requires(self, I, v, m): return [le(1, nt(m))]
    def ensures(self, I, v, m):
        cx = cxx.Cxx({}); I.cfn = getattr(I, "cfn", None) or "logsumexp"
        if isinstance(v, Arr): v = ("flat", v, ZERO)
        arr, k, at = cx.span(I, v, ("flat", v[1], add(nt(v[2]), nt(m)))); l, x = cx.fam(I, k, at)
        return LogV(ssum(l, k, lg(x).e))


class Log(K):
    name = "log"
    def __init__(self, nd=1): self.nd = nd
    def setup(self, I): return [inp(I, "xl", (n,) if self.nd == 1 else (sym("M", "I", "pos"), n))]
    def ensures(self, I, x):
        r = I.arr(x.shape, lambda *ix: s_log(I.at(x, ix))); r.cell.contig = True
        return r


class ForwardLog(K):
    name = "forward_log"
    def setup(self, I): return [inp(I, "sp", (n,)), inp(I, "tm", (n, n)), inp(I, "fp", (T, n), "log")]
    def requires(self, I, p, A, B): return shapes(I, p, A, B)
    def ensures(self, I, p, A, B):
        P, Q, R = pab(I, p, A, B, True)
        r = I.arr(B.shape, lambda t, j: LogV(spec.FWD(P, Q, R, t, j))); r.cell.contig = True
        return (LogV(spec.Z(P, Q, R, sub(num(B.shape[0]), 1))), r)
    def candidates(self, I, p, A, B):
        P, Q, R = pab(I, p, A, B, True); return [("FWD", 2, True, lambda t, j: spec.FWD(P, Q, R, t, j))]


class ForwardScaling(K):
    name = "forward_scaling"
    def setup(self, I):
        a = [inp(I, "sp", (n,)), inp(I, "tm", (n, n)), inp(I, "fp", (T, n))]
        spec.POSZ.add(tuple(canon(x, I.ctx) for x in pab(I, *a, False)))
        return a
    def requires(self, I, p, A, B): return shapes(I, p, A, B)
    def raises(self, I, p, A, B):
        P, Q, R = pab(I, p, A, B, False); t = fresh("t"); tiny = num(Fraction(1, 10 ** 300))
        return binder("exists", t, num(B.shape[0]), lt(div(spec.Z(P, Q, R, t), self.prev(P, Q, R, t)), tiny))
    def prev(self, P, Q, R, t): return spec.ZPREV(P, Q, R, t)
    def ensures(self, I, p, A, B):
        P, Q, R = pab(I, p, A, B, False); Tn = num(B.shape[0])
        f = I.arr(B.shape, lambda t, j: div(spec.FWD(P, Q, R, t, j), spec.Z(P, Q, R, t))); f.cell.contig = True
        s = I.arr((Tn,), lambda t: div(self.prev(P, Q, R, t), spec.Z(P, Q, R, t))); s.cell.contig = True
        return (LogV(spec.Z(P, Q, R, sub(Tn, 1))), f, s)
    def candidates(self, I, p, A, B):
        P, Q, R = pab(I, p, A, B, False)
        return [("FWD/Z", 2, False, lambda t, j: div(spec.FWD(P, Q, R, t, j), spec.Z(P, Q, R, t))),
                ("log Z", 0, False, lambda t: log(spec.Z(P, Q, R, t))), ("Z", 0, True, lambda t: spec.Z(P, Q, R, t)),
                ("scaling = Z(t-1)/Z(t)", 1, False, lambda t: div(self.prev(P, Q, R, t), spec.Z(P, Q, R, t)))]


class BackwardLog(K):
    name = "backward_log"
    def setup(self, I): return [inp(I, "sp", (n,)), inp(I, "tm", (n, n)), inp(I, "fp", (T, n), "log")]
    def requires(self, I, p, A, B): return shapes(I, p, A, B)
    def ensures(self, I, p, A, B):
        P, Q, R = pab(I, p, A, B, True)
        r = I.arr(B.shape, lambda t, j: LogV(spec.BWD(Q, R, t, j))); r.cell.contig = True
        return r
    def candidates(self, I, p, A, B):
        P, Q, R = pab(I, p, A, B, True); return [("BWD", 2, True, lambda t, j: spec.BWD(Q, R, t, j))]


class BackwardScaling(K):
    name = "backward_scaling"
    def setup(self, I): return [inp(I, "sp", (n,)), inp(I, "tm", (n, n)), inp(I, "fp", (T, n)), inp(I, "sc", (T,))]
    def requires(self, I, p, A, B, c): return shapes(I, p, A, B) + same(I, (c.shape[0], B.shape[0]))
    def ensures(self, I, p, A, B, c):
        P, Q, R = pab(I, p, A, B, False); C = lmat(I, c)
        r = I.arr(B.shape, lambda t, j: mul(app("CP", C, t), spec.BWD(Q, R, t, j))); r.cell.contig = True
        return r
    def candidates(self, I, p, A, B, c):
        P, Q, R = pab(I, p, A, B, False); C = lmat(I, c)
        return [("CP*BWD", 2, False, lambda t, j: mul(app("CP", C, t), spec.BWD(Q, R, t, j)))]


class XiScaling(K):
    name = "compute_scaling_xi_sum"
    def setup(self, I): return [inp(I, "fw", (T, n)), inp(I, "tm", (n, n)), inp(I, "bw", (T, n)), inp(I, "fp", (T, n))]
    def requires(self, I, f, A, b, B):
        N = B.shape[1]; return same(I, (f.shape[0], B.shape[0]), (f.shape[1], N), (A.shape[0], N), (A.shape[1], N), (b.shape[0], B.shape[0]), (b.shape[1], N)) + [le(1, num(B.shape[0])), le(1, num(N))]
    def ensures(self, I, f, A, b, B):
        t = fresh("b"); Tn = num(B.shape[0])
        r = I.arr((B.shape[1], B.shape[1]), lambda i, j: ssum(t, sub(Tn, 1), mul(nt(I.at(f, (t, i))), nt(I.at(A, (i, j))), nt(I.at(B, (add(t, 1), j))), nt(I.at(b, (add(t, 1), j))))))
        r.cell.contig = True; return r


class XiLog(XiScaling):
    name = "compute_log_xi_sum"
    def setup(self, I):
        a = [inp(I, "fw", (T, n), "log"), inp(I, "tm", (n, n)), inp(I, "bw", (T, n), "log"), inp(I, "fp", (T, n), "log")]
        j = fresh("b"); I.ctx = I.ctx.extend(mk("gt0", (canon(ssum(j, n, app("fw", sub(T, 1), j)), I.ctx),), "B"))
        return a
    def requires(self, I, f, A, b, B):
        j = fresh("b"); Tn = num(B.shape[0])
        return super().requires(I, f, A, b, B) + [lt(0, ssum(j, num(B.shape[1]), lg(I.at(f, (sub(Tn, 1), j))).e))]
    def ensures(self, I, f, A, b, B):
        t = fresh("b"); Tn = num(B.shape[0]); j0 = fresh("b")
        z = ssum(j0, num(B.shape[1]), lg(I.at(f, (sub(Tn, 1), j0))).e)
        r = I.arr((B.shape[1], B.shape[1]), lambda i, j: LogV(div(ssum(t, sub(Tn, 1), mul(lg(I.at(f, (t, i))).e, nt(I.at(A, (i, j))), lg(I.at(B, (add(t, 1), j))).e, lg(I.at(b, (add(t, 1), j))).e)), z)))
        r.cell.contig = True; return r


class Viterbi(K):
    name = "viterbi"
    def setup(self, I):
        I.dims = [n]
        return [inp(I, "sp", (n,)), inp(I, "tm", (n, n)), inp(I, "fp", (T, n), "log")]
    def requires(self, I, p, A, B): return shapes(I, p, A, B)
    def ensures(self, I, p, A, B):
        P, Q, R = pab(I, p, A, B, True); Tn, N = num(B.shape[0]), num(B.shape[1])
        Rules.bounds["VPATH"] = N
        j = fresh("b")
        return (LogV(smax(j, N, spec.VIT(P, Q, R, sub(Tn, 1), j))), I.arr((Tn,), lambda t: app("VPATH", P, Q, R, t, sort="I"), "i"))
    def candidates(self, I, p, A, B):
        P, Q, R = pab(I, p, A, B, True); return [("VIT", 2, True, lambda t, j: spec.VIT(P, Q, R, t, j))]
    def check(self, I, V, args, res):
        """the returned path attains the maximum: its last state maximises VIT(T-1, .), every earlier state
        maximises VIT(t, .) A(., next); the returned value is the maximum"""
        p, A, B = args; P, Q, R = pab(I, p, A, B, True)
        if not (isinstance(res, tuple) and len(res) == 2 and isinstance(res[1], Arr) and res[1].ndim == 1): return V.ob("returns a value and a path", False)
        lp, path = res
        if not I.deq(path.shape[0], T): return V.ob("path length", False)
        last = nt(I.at(path, (sub(T, 1),)))
        V.arg(I, "last state maximises VIT(T-1, .)", last, n, lambda j: spec.VIT(P, Q, R, sub(T, 1), j))
        t = fresh("t"); c0 = I.ctx; I.ctx = c0.extend(le(0, t), lt(t, sub(T, 1)))
        s1, s0 = nt(I.at(path, (add(t, 1),))), nt(I.at(path, (t,)))
        V.arg(I, "state t maximises VIT(t, .) A(., state t+1)", s0, n, lambda j: mul(spec.VIT(P, Q, R, t, j), lam_at(Q, j, s1)))
        I.ctx = c0
        j = fresh("b")
        V.eqv(I, "log-probability of the path is the maximum", lp, LogV(smax(j, n, spec.VIT(P, Q, R, sub(T, 1), j))))


CONTRACTS = [Logaddexp(), Logsumexp(), Log(1), Log(2), ForwardScaling(), ForwardLog(), BackwardScaling(), BackwardLog(), XiScaling(), XiLog(), Viterbi()]


class Verifier:
    """collects named obligations and discharges them"""
    made = []

    def __init__(self, fn): self.fn = fn; self.out = []; Verifier.made.append(self); self.P = Prover(30); self.nbudget = 40.0

    def refuted(self, f, *a, **k):
        """numeric refutation of the obligation just recorded as undecided (or cross-check of a proved one)"""
        o = self.out[-1]
        if o["status"] == "proved" and not XCHECK or self.nbudget <= 0: return
        t0 = time.process_time()
        if o["status"] == "proved": k = dict(k, goods=12)
        try: det, good = f(*a, **k, budget=min(5.0, self.nbudget), salt=o["name"])
        except Exception as e:
            if DEBUG: import traceback; traceback.print_exc()
            det, good = None, 0
        if not XCHECK: self.nbudget -= time.process_time() - t0
        if XCHECK and o["status"] == "proved":
            o["instances"] = good
            if det: o["status"] = "CROSS"; o["detail"] = det
        elif det: o["status"] = "refuted"; o["detail"] = det + " -- " + o["detail"]; o["backend"] = "numeric instance"
        o["seconds"] = round(o["seconds"] + time.process_time() - t0, 3)

    def ob(self, name, ok, detail="", backend="normalisation", sec=0.0):
        self.out.append(dict(name=f"{self.fn}: {name}", status="proved" if ok else "undecided", detail=detail, backend=backend, seconds=round(sec, 3)))
        return ok

    def eqv(self, I, name, a, b, idx=""):
        t0 = time.process_time()
        if isinstance(b, (tuple,)):
            if not (isinstance(a, tuple) and len(a) == len(b)): return self.ob(name + ": result shape", False, f"{a!r}")
            return all([self.eqv(I, f"{name}[{i}]", x, y) for i, (x, y) in enumerate(zip(a, b))])
        if isinstance(b, Arr):
            if not (isinstance(a, Arr) and a.ndim == b.ndim and all(I.deq(x, y) for x, y in zip(a.shape, b.shape))):
                return self.ob(name + ": shape", False, f"{a!r} against {b!r}")
            vs = [fresh("x") for _ in b.shape]; c0 = I.ctx
            I.ctx = c0.extend(*[c for v, d in zip(vs, b.shape) for c in (le(0, v), lt(v, num(d)))])
            try: return self.eqv(I, name, I.at(a, vs), I.at(b, vs))
            finally: I.ctx = c0
        if isinstance(b, LogV) or isinstance(a, LogV): x, y = lg(a).e, lg(b).e
        else: x, y = tm(a), tm(b)
        if x.sort == "B" or y.sort == "B":
            x, y = num01(x), num01(y)
        self.P.why = ""
        g = generalise(x, y)
        ok = g is not None and Prover(4).equal(*g, I.ctx) or self.P.equal(x, y, I.ctx)
        self.ob(name, ok, "" if ok else f"cannot prove {show(canon_safe(x, I.ctx))[:700]} = {show(y)[:300]}: {self.P.why[:500]}", sec=time.process_time() - t0)
        self.refuted(numeric.refute_eq, x, y, I.ctx)
        return ok

    def arg(self, I, name, a, m, g):
        t0 = time.process_time()
        for op in ("argf", "argl"):
            j = fresh("b"); goal = binder(op, j, m, g(j))
            x = a
            for u in range(3):
                if canon_safe(x, I.ctx) is canon_safe(goal, I.ctx) or self.P.equal(x, goal, I.ctx): return self.ob(name, True, sec=time.process_time() - t0)
                a2 = unfold_int(x, I.ctx)
                if a2 is x: break
                x = a2
        self.ob(name, False, f"{show(canon_safe(a, I.ctx))[:900]}", sec=time.process_time() - t0)
        self.refuted(numeric.refute_arg, a, m, g, I.ctx)
        return False

    def truth(self, I, name, goal, backend="z3"):
        t0 = time.process_time()
        ok = self.ob(name, I.ctx.decide(goal) is True, show(goal)[:400], backend, time.process_time() - t0)
        self.refuted(numeric.refute_goal, goal, I.ctx)
        return ok


def generalise(x, y):
    """both sides with the conditional subterms they share (up to the names of index variables) replaced by applications of
    unspecified functions: an equality for all functions implies the one for these"""
    def pick(t, out, seen):
        if t in seen: return
        seen.add(t)
        if t.op == "ite" and t.sort == "R": out.append(t); return
        if t.op in ("c", "v", "true", "false"): return
        for k in kids(t): pick(k, out, seen)
    xs, ys = [], []; pick(x, xs, set()); pick(y, ys, set())
    if not xs or not ys or len(xs) + len(ys) > 60: return None
    keys = {}
    def key(t):
        if t in keys: return keys[t]
        free = fv(t); vs = []; seen = set()
        def go(u):
            if u in seen: return
            seen.add(u)
            if u.op == "v":
                if u in free and u.a[0][0] in "%#" and u not in vs: vs.append(u)
                return
            if u.op in ("c", "true", "false"): return
            for k in kids(u): go(k)
        go(t)
        r = canon_safe(subst(t, {v: mk("v", ("%%G%d" % i,), v.sort) for i, v in enumerate(vs)}), Ctx()), tuple(vs)
        keys[t] = r; return r
    common = {key(t)[0] for t in xs} & {key(t)[0] for t in ys}
    if not common: return None
    names = {c: fresh("GEN").a[0] for c in common}; memo = {}
    def rep(t):
        if t in memo: return memo[t]
        if t in keys and key(t)[0] in common: r = app(names[key(t)[0]], *key(t)[1], sort=t.sort)
        elif t.op in ("c", "v", "true", "false"): r = t
        elif t.op in BIND: r = binder(t.op, t.a[0], rep(t.a[1]), rep(t.a[2]))
        elif t.op == "lam": r = mk("lam", (t.a[0], tuple(rep(d) for d in t.a[1]), rep(t.a[2])), "L")
        else: r = rebuild(t, [rep(k) for k in kids(t)])
        memo[t] = r; return r
    return rep(x), rep(y)


def canon_safe(x, ctx):
    try: return canon(x, ctx)
    except Exception: return x


def cbool_safe(x, ctx):
    try: return nf.cbool(x, ctx)
    except Exception: return x


def unfold_int(a, ctx):
    """one unfolding of a recursive integer function at the root"""
    from .nf import Rules
    if a.op == "app" and a.a[0] in Rules.unfold and Rules.unfold[a.a[0]](a.a[1:], ctx, probe=True) is not None:
        return Rules.unfold[a.a[0]](a.a[1:], ctx, probe=False)
    if a.op == "ite":
        d = ctx.decide(a.a[0])
        if d is not None: return a.a[1] if d else a.a[2]
    return a


def install(I, cx, only=None):
    """callers are checked against these contracts"""
    def mkc(c):
        def f(I, *a):
            for r in c.requires(I, *a):
                if I.ctx.decide(r) is not True:
                    I.oblig(f"precondition of _hmmc.{c.name}", r, kind="pre")
            return c.ensures(I, *a)
        return f
    for c in CONTRACTS:
        if only is None or c.name in only: I.contracts["_hmmc." + c.name] = mkc(c)


def verify(c, fns, helpers):
    """obligations of one kernel against its contract; helpers: names of kernels whose contracts callers may use"""
    V = Verifier("_hmmc." + c.name + ("" if not isinstance(c, Log) else f"[{c.nd}-d]")); t0 = time.process_time()
    cx = cxx.Cxx(fns); I = Py("/repo/src/hmmlearn", Ctx(BASE))
    I.deadline = time.process_time() + 120
    try:
        if c.name not in fns: raise Unsupported("function not found")
        install(I, cx, [h for h in helpers if h != c.name])
        a = c.setup(I)
        I.cands = c.candidates(I, *a) if hasattr(c, "candidates") else []
        outs = I.explore(lambda: cx.run(I, c.name, a))
        normal = 0
        for cond, kind, val, heap, ctx in outs:
            I.heap = {h: (dict(x) if isinstance(x, dict) else x) for h, x in heap.items()}; I.ctx = ctx; I.cfn = c.name
            if kind in ("ret", "ok"):
                normal += 1
                if hasattr(c, "check"): c.check(I, V, a, val)
                else: V.eqv(I, "ensures", val, c.ensures(I, *a))
            elif kind == "exc":
                r = c.raises(I, *a)
                if val.name != "ValueError": V.ob("raises only ValueError", False, val.name)
                elif r is None:
                    V.ob("never raises", False, f"raises {val.args_} if {show(cond)[:300]}"); V.refuted(numeric.refute_goal, FALSE, I.ctx, extra=(cond,))
                else: V.excond(I, cond, r)
        V.ob("returns normally", normal > 0)
        discharge(I, V)
    except Unsupported as e:
        V.ob("within reach of the verifier", False, f"{e} at {getattr(e, 'where', '?')}", "none")
    except Exception as e:
        import traceback
        V.ob("within reach of the verifier", False, traceback.format_exc()[-600:], "none")
    for o in V.out: o["function"] = "_hmmc." + c.name
    return V.out


def excond(self, I, cond, r):
    """the exceptional outcome is only taken under the contract's condition (an existential over the time index)"""
    t0 = time.process_time(); c0 = Ctx(BASE)
    t, m, body = r.a
    k = fresh("k"); c1 = c0.extend(le(0, k), lt(k, sub(m, 1)))
    goals = {cbool_safe(subst(body, {t: ZERO}), c0), cbool_safe(r, c0)}
    step = cbool_safe(unfold_step(subst(body, {t: add(k, 1)}), c1), c1)
    for x in (cond.a if cond.op == "and" else (cond,)):
        x2 = cbool_safe(unfold_step(x, c0), c0)
        if x2 in goals or cbool_safe(unfold_step(subst(body, {t: ZERO}), c0), c0) is x2: return self.ob("raises only on underflow", True, sec=time.process_time() - t0)
        if x.op == "exists" and c0.decide(eq(x.a[1], sub(m, 1))) is True and cbool_safe(subst(x.a[2], {x.a[0]: k}), c1) is step:
            return self.ob("raises only on underflow", True, sec=time.process_time() - t0)
    self.ob("raises only on underflow", False, f"{show(cond)[:600]} against {show(r)[:400]}", sec=time.process_time() - t0)
    self.refuted(numeric.refute_goal, r, c0, extra=(cond,))
    return False


def unfold_step(t, ctx):
    """unfolds the specification functions once, where their time index is decided to be 0 or positive"""
    for x in [x for x in walk(t) if x.op == "app" and x.a[0] in ("FWD",)]:
        kk = Rules.unfold["FWD"](x.a[1:], ctx, probe=True)
        if kk is not None and ctx.decide(le(1, sub(x.a[4], 0))) is not None: t = nf.unfold_all(t, ("FWD",) + tuple(kk), ctx)
    return t


Verifier.excond = excond


def discharge(I, V):
    """side obligations (bounds, nonzero divisors, preconditions)"""
    groups = {}
    for o in I.obls:
        groups.setdefault(o["name"], []).append(o)
    for name, os_ in groups.items():
        t0 = time.process_time(); ok = True; det = ""; xs = []
        for o in os_:
            if o["goal"] is TRUE: continue
            c = Ctx(BASE + list(o["facts"]))
            if o.get("sub"): c.sub = {**c.sub, **o["sub"]}
            if o["goal"].op != "ge0": c = c.extend(*[cbool_safe(f, Ctx(BASE + [x for x in o["facts"] if x.op == "ge0"])) for f in o["facts"] if f.op != "ge0" and f.op not in ("exists", "forall")])
            if c.decide(o["goal"]) is True or not c.consistent(): continue
            g = cbool_safe(o["goal"], c)
            if g is TRUE or c.decide(g) is True:
                if XCHECK: xs.append((o["goal"], c))
                continue
            if g.op == "not" and g.a[0].op == "eq0" and g.a[0].a[0].sort != "I" and 2 in (nf.sign(g.a[0].a[0], c), nf.sign(neg(g.a[0].a[0]), c)): continue
            if DEBUG: print("OBLIGATION", name, show(g)[:1500], [show(f)[:600] for f in c.facts])
            ok = False; det = show(o["goal"])[:300] + " under " + "; ".join(show(f)[:120] for f in c.facts[-6:]); fail = (o["goal"], c); break
        V.out.append(dict(name=name, status="proved" if ok else "undecided", detail=det, backend="z3", seconds=round(time.process_time() - t0, 3)))
        if not ok: V.refuted(numeric.refute_goal, *fail)
        for g, c in xs[:2]: V.refuted(numeric.refute_goal, g, c)


def run(path="/repo/ext/_hmmc.cpp", only=None):
    t0 = time.process_time()
    try: fns = cxx.parse(path)
    except Unsupported as e:
        return [dict(name="_hmmc: parsed", status="undecided", detail=str(e), backend="clang", seconds=time.process_time() - t0, function="_hmmc")]
    out = []; good = set()
    for c in CONTRACTS:
        if only and c.name not in only and c.name not in ("logaddexp", "logsumexp", "log"): continue
        r = verify(c, fns, good)
        out += r
        if all(o["status"] == "proved" for o in r): good.add(c.name)
        else: good.discard(c.name)
    return out


if __name__ == "__main__":
    import sys
    for o in run(only=sys.argv[1:] or None):
        print(f"{o['status']:10s} {o['seconds']:7.2f} {o['name']}" + ("" if o["status"] == "proved" else "\n      " + o["detail"]))
