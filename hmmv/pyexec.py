"""Statements, expressions, classes and modules."""
import ast, os
from .terms import *
from .val import *
from .interp import *
from . import npm

BINOPS = {ast.Add: s_add, ast.Sub: s_sub, ast.Mult: s_mul, ast.Div: s_div, ast.FloorDiv: s_floordiv, ast.Mod: s_mod, ast.Pow: s_pow}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}


# the attributes instances have; an attribute outside this list that some method sets is hidden state, unknown when a method begins
STATE = set("""_covars_ algorithm beta_posterior_ beta_prior beta_prior_ covariance_type covars_ covars_prior covars_weight dof_posterior_
dof_prior dof_prior_ emissionprob_ emissionprob_log_subnorm_ emissionprob_posterior_ emissionprob_prior emissionprob_prior_ history
implementation init_params iter lambdas_ lambdas_prior lambdas_weight means_ means_posterior_ means_prior means_prior_ means_weight
min_covar monitor_ n_components n_features n_iter n_mix n_trials params random_state scale_posterior_ scale_prior scale_prior_
startprob_ startprob_posterior_ startprob_prior startprob_prior_ startprob_subnorm_ tol transmat_ transmat_posterior_ transmat_prior
transmat_prior_ transmat_subnorm_ verbose weights_ weights_prior""".split())


class Py(Interp):
    def __init__(self, src, ctx=None, cxx=None):
        super().__init__(ctx)
        self.src = src; self.lemmas = []; self.plausible = lambda *a: True; self.dims = []
        self.natives = cxx or {}
        self.inlined = set(); self.effects = []

    # --------------------------------------------------------------- modules
    def module(self, name):
        if name in self.mods: return self.mods[name]
        path = os.path.join(self.src, *name.split(".")[1:]) + ".py"
        if name == "hmmlearn": path = os.path.join(self.src, "__init__.py")
        tree = ast.parse(open(path).read(), path)
        m = Module(name, tree); self.mods[name] = m; m.frame = None
        for cd in ast.walk(tree):
            if isinstance(cd, ast.ClassDef): self.written |= {x.attr for x in ast.walk(cd) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del))} | {x.args[1].value for x in ast.walk(cd) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) == 3 and isinstance(x.args[1], ast.Constant)}
        for st in tree.body:
            self.static_depth += 1
            try: self.mod_stmt(m, st)
            except (Unsupported, PyExc) as e:
                for t in ast.walk(st):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store): m.ns[t.id] = Poison(f"module level value {t.id}: {e}")
            finally: self.static_depth -= 1
        return m

    def mod_stmt(self, m, st):
        if isinstance(st, (ast.FunctionDef,)): m.ns[st.name] = FuncV(st, m) if all("deprecated" in ast.unparse(d) for d in st.decorator_list) else Poison("decorated function " + st.name)
        elif isinstance(st, ast.ClassDef): m.ns[st.name] = self.mkclass(m, st)
        elif isinstance(st, ast.Import):
            for a in st.names: m.ns[a.asname or a.name.split(".")[0]] = self.imp(a.name if a.asname else a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            for a in st.names: m.ns[a.asname or a.name] = self.impfrom(m.name, st, a.name)
        elif isinstance(st, ast.Assign):
            v = self.ev(st.value, ModFrame(m))
            for t in st.targets:
                if isinstance(t, ast.Name): m.ns[t.id] = v
        elif isinstance(st, ast.If) or isinstance(st, ast.Try):
            for s in st.body: self.mod_stmt(m, s)
        elif isinstance(st, ast.Expr): pass

    def imp(self, path):
        if path.startswith("hmmlearn"): return self.module(path)
        return ModV(path)

    def impfrom(self, cur, st, name):
        if st.level:
            base = cur.split(".")[:1]
            full = ".".join(base + ([st.module] if st.module else []))
            if not st.module:
                if name == "_hmmc": return ModV("_hmmc")
                return self.module(full + "." + name)
            if st.module == "_hmmc": return npm.attr(self, ModV("_hmmc"), name)
            m = self.module(full)
            if name in m.ns: return m.ns[name]
            return self.module(full + "." + name)
        if (st.module or "").startswith("hmmlearn"):
            if st.module == "hmmlearn": return self.module("hmmlearn." + name) if name != "_hmmc" else ModV("_hmmc")
            return self.module(st.module).ns[name]
        return npm.attr(self, ModV(st.module), name)

    def mkclass(self, m, node):
        bases = []
        for b in node.bases:
            v = self.ev(b, ModFrame(m))
            if isinstance(v, ClassV): bases.append(v)
        c = ClassV(node.name, m, node, bases)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                f = FuncV(st, m, c); names = [ast.unparse(d) for d in st.decorator_list]
                if "property" in names: c.ns[st.name] = PropV(f)
                elif any(x.endswith(".setter") for x in names): c.ns[st.name].fset = f
                elif any(x.startswith(("staticmethod",)) for x in names): f.static = True; c.ns[st.name] = f
                elif any("deprecated" in x for x in names) or not names: c.ns[st.name] = f
                else: c.ns[st.name] = Poison("decorated method " + st.name)
            elif isinstance(st, ast.Assign):
                try: v = self.ev(st.value, ModFrame(m, c.ns))
                except (Unsupported, PyExc) as e: v = Poison(str(e))
                for t in st.targets:
                    if isinstance(t, ast.Name): c.ns[t.id] = v
        return c

    # ------------------------------------------------------------------ calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        self.depth += 1
        try:
            if self.depth > 60: raise Unsupported("call depth")
            if isinstance(f, Builtin): return f.fn(self, *args, **kw)
            if isinstance(f, BoundM): return self.call(f.f, (f.self_,) + tuple(args), kw)
            if isinstance(f, FuncV): return self.callf(f, args, kw)
            if isinstance(f, ClassV):
                o = self.new(Obj(f), {})
                init = f.lookup("__init__")
                if init: self.call(init, (o,) + tuple(args), kw)
                return o
            if isinstance(f, ExcClass): return Opaque("exception", name=f.name, args=args)
            if callable(getattr(f, "call", None)): return f.call(self, *args, **kw)
        finally: self.depth -= 1
        if isinstance(f, Poison): raise Unsupported(f.why)
        raise Unsupported("call of %r" % (f,))

    def callf(self, f, args, kw):
        c = self.contracts.get(f.qual)
        if c is not None:
            r = c(self, *args, **kw)
            if r is not NotImplemented:
                self.used.add(f.qual); return r
        self.inlined.add(f.qual)
        fr = self.new(Frame(), {}); fr.func = f; fr.mod = f.mod; fr.closure = f.closure
        self.bind(f, fr, list(args), dict(kw))
        if isinstance(f.node, ast.Lambda): return self.ev(f.node.body, fr)
        try: self.block(f.node.body, fr)
        except Ret as e: return e.v
        return None

    def bind(self, f, fr, args, kw):
        a = f.node.args; st = self.heap[fr]
        ps = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(ps) and not a.vararg: raise PyExc("TypeError", ("too many arguments for " + f.qual,))
        for p, v in zip(ps, args): st[p] = v
        if a.vararg: st[a.vararg.arg] = tuple(args[len(ps):])
        extra = {}
        for k, v in kw.items():
            if k in ps or k in [x.arg for x in a.kwonlyargs]:
                if k in st: raise PyExc("TypeError", ("multiple values for " + k,))
                st[k] = v
            elif a.kwarg: extra[k] = v
            else: raise PyExc("TypeError", (f"unexpected keyword {k} for {f.qual}",))
        if a.kwarg: st[a.kwarg.arg] = self.new(DictV(), extra)
        df = ModFrame(f.mod) if f.closure is None else f.closure
        for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            if p not in st: st[p] = self.default(d, df)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in st and d is not None: st[p.arg] = self.default(d, df)
        for p in ps + [x.arg for x in a.kwonlyargs]:
            if p not in st: raise PyExc("TypeError", (f"missing argument {p} of {f.qual}",))

    def default(self, d, fr):
        """defaults are evaluated once, when the function is defined: what they create is shared by all calls"""
        self.static_depth += 1
        try: return self.ev(d, fr)
        finally: self.static_depth -= 1

    # ------------------------------------------------------------- statements
    def block(self, body, fr):
        for s in body: self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None: raise Unsupported("statement " + type(s).__name__)
        try: return m(s, fr)
        except Unsupported as e:
            if not getattr(e, "where", None): e.where = f"{fr.func.qual if hasattr(fr, 'func') else fr.mod.name}:{getattr(s, 'lineno', '?')}"
            raise

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value, fr)

    def st_Pass(self, s, fr): pass
    def st_Return(self, s, fr): raise Ret(self.ev(s.value, fr) if s.value else None)
    def st_Break(self, s, fr): raise Brk()
    def st_Continue(self, s, fr): raise Cont()
    def st_Global(self, s, fr): raise Unsupported("global")
    def st_Nonlocal(self, s, fr): raise Unsupported("nonlocal")

    def st_Import(self, s, fr):
        for a in s.names: self.setk(fr, a.asname or a.name.split(".")[0], self.imp(a.name))

    def st_ImportFrom(self, s, fr):
        for a in s.names: self.setk(fr, a.asname or a.name, self.impfrom(fr.mod.name, s, a.name))

    def st_FunctionDef(self, s, fr): self.setk(fr, s.name, FuncV(s, fr.mod, getattr(fr.func, "cls", None) if False else None, closure=fr))

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets: self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None: self.assign(s.target, self.ev(s.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name): self.setk(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            it = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, it): self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), v)
        else: raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, Arr):
            d = num(v.shape[0])
            if d.op != "c":
                if self.branch(eq(d, n)): pass
                else: raise PyExc("ValueError", ("unpack",))
            elif d.a[0] != n: raise PyExc("ValueError", ("unpack",))
            return [self.index(v, (i,)) for i in range(n)]
        it = self.iterate(v)
        if isinstance(it, SymIter): raise Unsupported("unpacking a symbolic sequence")
        if len(it) != n: raise PyExc("ValueError", ("unpack",))
        return it

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name): cur = self.ev(t, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr); cur = self.getattr(o, t.attr)
        else:
            o = self.ev(t.value, fr); ix = self.ev_index(t.slice, fr); cur = self.getitem(o, ix)
        v = self.ev(s.value, fr)
        if isinstance(cur, Arr) and not (isinstance(t, ast.Subscript) and isinstance(o, Arr) and cur.ndim == 0):
            r = self.binop(s.op, cur, v)
            self.store(cur, r if not isinstance(r, Arr) else r)
            new = cur
            if isinstance(t, ast.Subscript) and isinstance(o, Arr):
                if any(isinstance(i, Arr) and i.ndim for i in (ix if isinstance(ix, tuple) else (ix,))): raise Unsupported("in-place operation on a selection")
                return
        elif isinstance(cur, ListV) and isinstance(s.op, ast.Add):
            for x in self.seq(v): npm.list_append(self, cur, x)
            new = cur
        else: new = self.binop(s.op, cur, v)
        if isinstance(t, ast.Name): self.setk(fr, t.id, new)
        elif isinstance(t, ast.Attribute): self.setattr(o, t.attr, new)
        else: self.setitem(o, ix, new)

    def st_If(self, s, fr):
        self.block(s.body if self.truth(self.ev(s.test, fr)) else s.orelse, fr)

    def st_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)): raise PyExc("AssertionError")

    def st_While(self, s, fr):
        for _ in range(64):
            c = self.ev(s.test, fr)
            if isinstance(c, T) and self.ctx.decide(c if c.sort == "B" else not_(eq(c, 0))) is None: raise Unsupported("while loop with a symbolic condition")
            if not self.truth(c):
                self.block(s.orelse, fr); return
            try: self.block(s.body, fr)
            except Brk: return
            except Cont: pass
        raise Unsupported("long while loop")

    def st_For(self, s, fr):
        it = self.iterate(self.ev(s.iter, fr))
        if isinstance(it, list):
            for x in it:
                self.assign(s.target, x, fr)
                try: self.block(s.body, fr)
                except Brk: return
                except Cont: continue
            self.block(s.orelse, fr)
            return
        if s.orelse: raise Unsupported("for-else over a symbolic range")

        def run(item):
            self.assign(s.target, item, fr); self.block(s.body, fr)
        h = getattr(self, "loop_hook", None)
        if h and h(self, s, it, run, fr): return
        self.sym_loop(it, run, fr)

    def st_Raise(self, s, fr):
        if s.exc is None:
            raise getattr(self, "cur_exc", None) or PyExc("RuntimeError")
        v = self.ev_exc(s.exc, fr)
        raise v

    def ev_exc(self, e, fr):
        if isinstance(e, ast.Call):
            f = self.ev(e.func, fr)
            if isinstance(f, ExcClass):
                return PyExc(f.name, (), e)   # the message is not evaluated: it cannot affect behaviour other than text
        f = self.ev(e, fr)
        if isinstance(f, ExcClass): return PyExc(f.name, (), e)
        if isinstance(f, Opaque) and f.what == "exception": return PyExc(f.name)
        raise Unsupported("raise")

    def st_Try(self, s, fr):
        try:
            self.block(s.body, fr)
        except PyExc as e:
            for h in s.handlers:
                if h.type is None: ok = True
                else:
                    ts = self.ev(h.type, fr); ts = ts if isinstance(ts, tuple) else (ts,)
                    ok = any(isinstance(t, ExcClass) and (t.name == e.name or t.name in EXC_BASES.get(e.name, ["Exception"]) or t.name == "BaseException") for t in ts)
                if ok:
                    if h.name: self.setk(fr, h.name, Opaque("exception", name=e.name, args=()))
                    old = getattr(self, "cur_exc", None); self.cur_exc = e
                    try: self.block(h.body, fr)
                    finally: self.cur_exc = old
                    break
            else: raise
        else: self.block(s.orelse, fr)
        if s.finalbody: self.block(s.finalbody, fr)

    def st_With(self, s, fr):
        for i in s.items:
            v = self.ev(i.context_expr, fr)
            if not (isinstance(v, Opaque) and v.what == "context"): raise Unsupported("with")
        self.block(s.body, fr)

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name): self.heap[fr].pop(t.id, None); self.log(fr, t.id)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr); self.heap[o].pop(t.attr, None); self.log(o, t.attr)
            else: raise Unsupported("del")

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None: raise Unsupported("expression " + type(e).__name__)
        return m(e, fr)

    def ex_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float) and v not in (float("inf"), float("-inf")) and v == v: return num(Fraction(repr(v)))
        return v

    def ex_Name(self, e, fr):
        f = fr
        while f is not None:
            st = self.heap.get(f) if isinstance(f, Frame) else f.vars
            if st is not None and e.id in st:
                v = st[e.id]
                if isinstance(v, Poison): raise Unsupported(v.why + " (" + e.id + ")")
                return v
            f = getattr(f, "closure", None)
        if e.id == "__class__": return fr.func.cls
        ns = fr.mod.ns
        if e.id in ns:
            v = ns[e.id]
            if isinstance(v, Poison): raise Unsupported(v.why)
            return v
        b = npm.BUILTINS.get(e.id)
        if b is not None: return b
        raise PyExc("NameError", (e.id,))

    def ex_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.ev(x.value, fr))
                if isinstance(it, SymIter): raise Unsupported("star of a symbolic sequence")
                out += it
            else: out.append(self.ev(x, fr))
        return tuple(out)

    def ex_List(self, e, fr): return self.new(ListV(), self.ex_Tuple(e, fr))
    def ex_Set(self, e, fr): return frozenset(self.ex_Tuple(e, fr))

    def ex_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None: d.update(self.heap[self.ev(v, fr)])
            else: d[self.ev(k, fr)] = self.evlazy(v, fr)
        return self.new(DictV(), d)

    def evlazy(self, v, fr): return self.ev(v, fr)

    def ex_JoinedStr(self, e, fr): return Opaque("str")

    def ex_Attribute(self, e, fr): return self.getattr(self.ev(e.value, fr), e.attr)

    def ex_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.ev_index(e.slice, fr))

    def ev_index(self, s, fr):
        if isinstance(s, ast.Tuple): return tuple(self.ev_index(x, fr) for x in s.elts)
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.scal(self.ev(x, fr))
            return slice(g(s.lower), g(s.upper), g(s.step))
        v = self.ev(s, fr)
        if isinstance(v, T) and v.op == "c" and v.sort == "I": v = int(v.a[0])
        if isinstance(v, Arr) and v.ndim == 0: v = self.at(v, ())
        return v

    def ex_Slice(self, e, fr): return self.ev_index(e, fr)

    def ex_BinOp(self, e, fr): return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        if isinstance(a, (Opaque, str)) or isinstance(b, Opaque) and b.what == "str":
            if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add): return a + b
            return Opaque("str")
        if isinstance(op, ast.MatMult): return npm.matmul(self, a, b)
        if isinstance(a, (ListV, Seq)) or isinstance(b, (ListV, Seq)) or isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, ListV) and isinstance(b, ListV) and isinstance(op, ast.Add):
                x, y = self.heap[a], self.heap[b]
                if isinstance(x, tuple) and isinstance(y, tuple): return self.new(ListV(), x + y)
            if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add): return a + b
            if isinstance(a, ListV) and isinstance(op, ast.Mult) and isscal(b):
                x = self.heap[a]
                if isinstance(x, tuple) and isinstance(b, int): return self.new(ListV(), x * b)
                if isinstance(x, tuple) and len(x) == 1: return self.new(ListV(), Seq([("many", num(b), fresh("s"), x[0])]))
            if isinstance(a, Arr) or isinstance(b, Arr): pass
            else: raise Unsupported("operation on lists")
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            f = (lambda x, y: and_(tm(x), tm(y))) if isinstance(op, ast.BitAnd) else (lambda x, y: or_(tm(x), tm(y)))
            return self.ew(f, a, b, dtype="b")
        fn = BINOPS.get(type(op))
        if fn is None: raise Unsupported("operator " + type(op).__name__)
        for x in (a, b):
            if not (isscal(x) or isinstance(x, (Arr, ListV, Seq))): raise Unsupported("arithmetic on %r" % (x,))
        if isinstance(op, ast.Div) and isinstance(b, int) and b == 0 and not isinstance(a, Arr): raise PyExc("ZeroDivisionError")
        return self.ew(fn, a, b, dtype="f" if isinstance(op, ast.Div) else None)

    def ex_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not): return not self.truth(v) if not (isinstance(v, T) and v.sort == "B") else not_(v)
        if isinstance(e.op, ast.USub): return self.ew(s_neg, v)
        if isinstance(e.op, ast.UAdd): return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Arr) and v.dtype == "b": return self.ew(lambda x: not_(tm(x)), v, dtype="b")
        raise Unsupported("unary operator")

    def ex_BoolOp(self, e, fr):
        a = isinstance(e.op, ast.And)
        v = None
        for x in e.values[:-1]:
            v = self.ev(x, fr)
            if self.truth(v) != a: return v if not isinstance(v, T) else (not a)
        return self.ev(e.values[-1], fr)

    def ex_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def ex_Compare(self, e, fr):
        left = self.ev(e.left, fr); out = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            c = self.compare(op, left, right)
            if out is None: out = c
            else: out = and_(tm(out), tm(c)) if isinstance(out, T) or isinstance(c, T) else (out and c)
            if out is False: return False
            left = right
        return out

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b) or (isinstance(a, (int, str)) and not isinstance(a, bool) and type(a) is type(b) and a == b)
            return r == isinstance(op, ast.Is)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, str):
                if not isinstance(a, str): raise Unsupported("in str")
                r = a in b
            else:
                it = list(self.heap[b].keys()) if isinstance(b, DictV) else self.iterate(b)
                if isinstance(it, SymIter): raise Unsupported("in a symbolic sequence")
                if isinstance(a, (T, LogV)):
                    c = or_(*[tm(s_cmp("==", a, x)) for x in it]); return c if isinstance(op, ast.In) else not_(c)
                r = any(x is a or (type(x) is type(a) and not isinstance(x, (T, LogV, H, Arr)) and x == a) for x in it)
            return r == isinstance(op, ast.In)
        o = CMP[type(op)]
        if isinstance(a, (ListV, DictV)) and isinstance(b, (ListV, DictV)): 
            if isinstance(a, ListV): a, b = self.heap[a], self.heap[b]
        if isinstance(a, tuple) or isinstance(b, tuple):
            if not (isinstance(a, tuple) and isinstance(b, tuple)): return o == "!=" 
            if o not in ("==", "!="): raise Unsupported("tuple order")
            if len(a) != len(b): return o == "!="
            c = True
            for x, y in zip(a, b):
                d = self.compare(ast.Eq(), x, y)
                c = d if c is True else (and_(tm(c), tm(d)))
                if c is False or c is FALSE: break
            return c if o == "==" else s_not(c)
        if a is None or b is None or isinstance(a, (str, Opaque, BoundM, FuncV, ClassV, Builtin)) or isinstance(b, (str, Opaque, BoundM, FuncV, ClassV, Builtin)):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                if getattr(a, "what", None) == "dtype" and getattr(b, "what", None) == "dtype": r = a.kind == b.kind
                elif a is b: r = True
                else: raise Unsupported("comparison of opaque values")
            else: r = a == b
            if o == "==": return bool(r)
            if o == "!=": return not r
            raise Unsupported("order comparison of %r and %r" % (a, b))
        return self.ew(lambda x, y: s_cmp(o, x, y), a, b, dtype="b")

    def ex_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while getattr(f, "func", None) is not None and f.func.cls is None and f.closure is not None: f = f.closure
            st = self.heap[f]
            return SuperV(f.func.cls, st[f.func.node.args.args[0].arg])
        f = self.ev(e.func, fr)
        # messages: formatting and logging are not evaluated
        if isinstance(f, Builtin) and f.name in ("log.effect", "warnings.warn", "builtins.print"):
            self.effects.append(f.name); return None
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.ev(x.value, fr))
                if isinstance(it, SymIter): raise Unsupported("star of a symbolic sequence")
                args += it
            else: args.append(self.ev(x, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None: kw.update(self.heap[self.ev(k.value, fr)])
            else: kw[k.arg] = self.ev(k.value, fr)
        if isinstance(f, Builtin) and f.name in ("builtins.locals",): raise Unsupported("locals()")
        return self.call(f, tuple(args), kw)

    def ex_Lambda(self, e, fr): return FuncV(e, fr.mod, None, closure=fr, name="<lambda>")

    def comp(self, e, fr, build):
        if len(e.generators) != 1: raise Unsupported("nested comprehension")
        g = e.generators[0]
        it = self.iterate(self.ev(g.iter, fr))
        f2 = self.new(Frame(), {}); f2.func = fr.func if hasattr(fr, "func") else None; f2.mod = fr.mod; f2.closure = fr
        if isinstance(it, list):
            out = []
            for x in it:
                self.assign(g.target, x, f2)
                if all(self.truth(self.ev(c, f2)) for c in g.ifs): out.append(build(f2))
            return out
        if g.ifs: raise Unsupported("filtered comprehension over a symbolic range")
        k = fresh("s"); ctx0 = self.ctx; self.ctx = ctx0.extend(le(0, k), lt(k, it.n))
        try:
            self.assign(g.target, it.item(k), f2)
            no = len(self.oracles[-1].conds) if self.oracles else 0
            v = build(f2)
            if self.oracles and len(self.oracles[-1].conds) != no: raise Unsupported("branching in a comprehension over a symbolic range")
        finally: self.ctx = ctx0
        return Seq([("many", it.n, k, v)])

    def ex_ListComp(self, e, fr):
        r = self.comp(e, fr, lambda f: self.ev(e.elt, f))
        return self.new(ListV(), tuple(r) if isinstance(r, list) else r)

    def ex_GeneratorExp(self, e, fr):
        r = self.comp(e, fr, lambda f: self.ev(e.elt, f))
        return tuple(r) if isinstance(r, list) else r

    def ex_DictComp(self, e, fr):
        r = self.comp(e, fr, lambda f: (self.ev(e.key, f), self.ev(e.value, f)))
        if not isinstance(r, list): raise Unsupported("symbolic dict")
        return self.new(DictV(), dict(r))

    def ex_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr); self.assign(e.target, v, fr); return v

    def ex_Starred(self, e, fr): raise Unsupported("starred")

    # ------------------------------------------------------------- attributes
    def getattr(self, o, name):
        if isinstance(o, Obj):
            st = self.heap[o]
            if name == "__class__": return o.cls
            if isinstance(o.cls, ClassV):
                p = o.cls.lookup(name)
                if isinstance(p, PropV): return self.call(p.fget, (o,))
            if name in st:
                v = st[name]
                if isinstance(v, Poison): raise Unsupported(v.why + " (attribute " + name + ")")
                return v
            if isinstance(o.cls, ClassV):
                if isinstance(p, FuncV): return p if getattr(p, "static", False) else BoundM(p, o)
                if p is not None:
                    if isinstance(p, Poison): raise Unsupported(p.why)
                    return p
            r = npm.obj_attr(self, o, name)
            if r is not None: return r
            if name in self.written and name not in STATE: raise Unsupported(f"attribute {name} is not part of the specified state: what an earlier call left in it is unknown")
            raise PyExc("AttributeError", (name,))
        if isinstance(o, SuperV):
            p = o.self_.cls.lookup(name, after=o.cls)
            if isinstance(p, FuncV): return BoundM(p, o.self_)
            if isinstance(p, PropV): return self.call(p.fget, (o.self_,))
            if name == "__init__": return Builtin("object.__init__", lambda I, *a, **k: None)
            raise PyExc("AttributeError", (name,))
        if isinstance(o, Module):
            if name in o.ns:
                v = o.ns[name]
                if isinstance(v, Poison): raise Unsupported(v.why)
                return v
            return self.module(o.name + "." + name)
        if isinstance(o, ClassV):
            if name == "__name__": return o.name
            v = o.lookup(name)
            if v is not None: return v
        if isinstance(o, FuncV) and name == "__get__":
            return Builtin("get", lambda I, s, *a: BoundM(o, s))
        return npm.attr(self, o, name)

    def hasattr(self, o, name):
        try: self.getattr(o, name); return True
        except PyExc as e:
            if e.name == "AttributeError": return False
            raise

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if isinstance(o.cls, ClassV):
                p = o.cls.lookup(name)
                if isinstance(p, PropV):
                    if p.fset is None: raise PyExc("AttributeError", (name,))
                    return self.call(p.fset, (o, v))
            return self.setk(o, name, v)
        if isinstance(o, Arr) and name == "shape":
            return npm.set_shape(self, o, v)
        raise Unsupported("attribute assignment on %r" % (o,))


class ModFrame:
    closure = None
    def __init__(self, m, vars=None): self.mod = m; self.vars = vars or {}
