"""Harness: symbolic execution of one Python function of /repo against its contract."""
import os, time
from ..terms import *
from ..terms import mk
from ..val import *
from ..nf import Ctx, canon
from .. import nf, spec, npm, kernels, numeric
from ..interp import Interp, FuncV, ClassV, Poison
from ..pyexec import Py
from ..kernels import Verifier, discharge, inp, cbool_safe
from ..registry import REPO
from ..tasks import task

SRC = os.path.join(REPO, "src", "hmmlearn")
N, T_, D, M, S = sym("N", "I", "pos"), sym("T", "I", "pos"), sym("D", "I", "pos"), sym("M", "I", "pos"), sym("S", "I", "pos")
TINY = sym("TINY", "R", "pos")
BASE = [le(1, N), le(1, T_), le(1, D), le(1, M), le(1, S)]


_SNAP = []


def _reset():
    """facts about symbols declared by one run do not reach the next one"""
    R = nf.Rules
    if not _SNAP: _SNAP.append((set(NONNEG), set(POS), dict(R.lower), dict(R.bounds), list(R.pos)))
    a, b, c, d, e = _SNAP[0]
    for live, old in ((NONNEG, a), (POS, b)): live.clear(); live.update(old)
    R.lower.clear(); R.lower.update(c); R.bounds.clear(); R.bounds.update(d); R.pos[:] = e


class Fn:
    """one verification run: name, facts assumed (preconditions), contracts installed for callees"""
    def __init__(self, name, facts=(), contracts=(), timeout=100):
        _reset(); self.name = name; self.V = Verifier(name); self.I = Py(SRC, Ctx(BASE + list(facts))); self.I.deadline = time.process_time() + timeout
        self.I.natives = {}; self.V.facts = BASE + list(facts)
        cx = {c.name: c for c in kernels.CONTRACTS}
        def nat(c):
            def f(I, *a):
                I.cfn = c.name
                for r in c.requires(I, *a):
                    if I.ctx.decide(r) is not True: I.oblig(f"{name}: precondition of _hmmc.{c.name}", r, kind="pre")
                I.used.add("_hmmc." + c.name)
                return c.ensures(I, *a)
            return f
        for k, c in cx.items():
            if k not in ("log", "logaddexp", "logsumexp"): self.I.natives[k] = nat(c)
        for q, f in dict(contracts).items(): self.I.contracts[q] = f

    # ------------------------------------------------------------- values
    def mod(self, m): return self.I.module("hmmlearn" + ("." + m if m else ""))
    def cls(self, m, c):
        v = self.mod(m).ns.get(c)
        if not isinstance(v, ClassV): raise Unsupported(f"class {c} not found in {m}")
        return v
    def func(self, m, f):
        v = self.mod(m).ns.get(f)
        if v is None or isinstance(v, Poison): raise Unsupported(f"function {f} not found in {m}")
        return v
    def arr(self, name, *shape, kind="real", dtype="f"):
        if kind == "nonneg": NONNEG.add(name)
        if kind == "pos": NONNEG.add(name); POS.add(name)
        a = self.I.arr(shape, lambda *ix: app(name, *ix, sort="I" if dtype == "i" else "R"), dtype)
        a.cell.contig = False; a.cell.owner = name
        return a
    def obj(self, cls, **kw): return self.I.new(Obj(cls), dict(kw))
    def dict(self, **kw): return self.I.new(DictV(), dict(kw))
    def get(self, o, name): return self.I.heap[o].get(name)

    # ------------------------------------------------------------- running
    def run(self, thunk, post, exc=None, open_x=True):
        """explores every path; post(value) on normal ones (state = self.I), exc(PyExc, condition) on exceptional ones"""
        I, V = self.I, self.V; t0 = time.process_time()
        for o, h in list(I.heap.items()):      # what a user may assign need not be of a float type
            for a in h.values() if isinstance(o, Obj) and isinstance(h, dict) else ():
                if isinstance(a, Arr) and a.dtype == "f" and a.cell.owner and not getattr(a.cell, "isfloat", False): a.cell.anytype = True
            if getattr(o, "owner", None) == "X" and open_x: o.anytype = True
        try:
            outs = I.explore(thunk); nn = 0
            for cond, kind, val, heap, ctx in outs:
                I.heap = {h: (dict(x) if isinstance(x, dict) else x) for h, x in heap.items()}; I.ctx = ctx
                if kind in ("ret", "ok"): nn += 1; post(val)
                elif exc is not None: exc(val, cond)
                else:
                    V.ob("never raises", False, f"raises {val.name} {val.args_ if hasattr(val, 'args_') else ''} if {show(cond)[:300]}"); V.refuted(numeric.refute_goal, FALSE, I.ctx, extra=(cond,))
            V.ob("returns normally", nn > 0 or post is None)
            I.heap = outs[0][3] if outs else I.heap
            discharge(I, V)
        except Unsupported as e: V.ob("within reach of the verifier", False, f"{e} at {getattr(e, 'where', '?')}", "none", time.process_time() - t0)
        return self

    def done(self):
        for o in self.V.out: o["function"] = self.name.split("[")[0].split(" ")[0]
        return self.V.out

    def same(self, name, got, want):
        """got (Arr / LogV / T / number) equals want, elementwise"""
        if isinstance(want, Arr) or isinstance(want, (T, LogV, tuple)) or isnum(want): return self.V.eqv(self.I, name, num_(got), num_(want))
        return self.V.ob(name, got is want or got == want, f"{got!r} against {want!r}")

    def spec(self, shape, fn, dtype="f"): return self.I.arr(shape, fn, dtype)

    def frame(self, name, *arrs, before):
        """the content of the given arrays is what it was"""
        for a in arrs:
            self.V.ob(f"{name} {a.cell.owner or ''} unmodified", self.I.heap.get(a.cell) == before.get(a.cell) or self.I.heap[a.cell][1] is before[a.cell][1])


def pos(t, ctx=None): return mk("gt0", (canon(t, ctx or Ctx(BASE)),), "B")


def rows_positive(name, n):
    """precondition: every row (last index) of the array has a positive sum"""
    def p(t, ctx):
        if t.op == "sum" and t.a[2].op == "*":       # weighted by positive factors
            fs = t.a[2].a; w = [x for x in fs if x.op == "app" and x.a[0] == name]
            if len(w) == 1 and all(x is w[0] or nf.sign(x, ctx) == 2 for x in fs): return p(mk("sum", (t.a[0], t.a[1], w[0]), "R"), ctx)
        if t.op == "sum" and t.a[2].op == "app" and t.a[2].a[0] == name and t.a[2].a[-1] is t.a[0] and t.a[1] is n and not any(t.a[0] in nf.fv(x) for x in t.a[2].a[1:-1]): return True
        return t.op == "app" and t.a[0] == name and ctx.decide(eq(t.a[-1], 0)) is True and ctx.decide(eq(n, 1)) is True
    nf.Rules.pos.append(p)


def num_(v): return num(v) if isnum(v) and not isinstance(v, bool) and v == v and v not in (float("inf"), float("-inf")) else v


def run_all(name, *fs):
    """several Fn runs -> obligations"""
    out = []
    for f in fs:
        try: out += f()
        except Unsupported as e: out.append(dict(name=f"{name}: within reach of the verifier", status="undecided", detail=f"{e} at {getattr(e, 'where', '?')}", backend="none", seconds=0, function=name))
    return out
