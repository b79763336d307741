"""Values of the interpreter: scalars (numbers, terms, log-domain numbers), arrays, sequences."""
from fractions import Fraction
import itertools
from .terms import *
from .terms import mk


class Unsupported(Exception): pass


class LogV:
    """the extended real log(e), e >= 0 (e = 0: minus infinity)"""
    __slots__ = ("e",)
    def __init__(self, e): self.e = num(e)
    def __repr__(self): return "LogV(" + show(self.e)[:300] + ")"


NUM = (int, float, Fraction)


def isnum(x): return isinstance(x, NUM) and not isinstance(x, bool)
def isscal(x): return isinstance(x, (T, LogV, bool) + NUM)


def tm(x):
    """scalar -> term (log-domain numbers become log(e))"""
    if isinstance(x, T): return x
    if isinstance(x, LogV): return log(x.e)
    if isinstance(x, float) and x in (float("inf"), float("-inf")): raise Unsupported("infinite constant")
    if isinstance(x, bool): return TRUE if x else FALSE
    if isinstance(x, NUM): return num(x)
    raise Unsupported("not a scalar: %r" % (x,))


def num01(t): return ite(t, ONE, ZERO) if t.sort == "B" else t


def nt(x): return num01(tm(x))


def lg(x):
    """scalar -> LogV"""
    if isinstance(x, LogV): return x
    if isinstance(x, float) and x == float("-inf"): return LogV(ZERO)
    return LogV(exp(nt(x)))


def simp0(x):
    if isinstance(x, T) and x.op == "c" and x.sort == "I": return int(x.a[0])
    return x


NINF = float("-inf")


def islog(x): return isinstance(x, LogV) or isinstance(x, float) and x == NINF


def s_add(a, b):
    if islog(a) or islog(b):
        if isnum(a) and a == 0 and not islog(a): return lg(b)
        if isnum(b) and b == 0 and not islog(b): return lg(a)
        return LogV(mul(lg(a).e, lg(b).e))
    if isinstance(a, int) and isinstance(b, int): return a + b
    return add(nt(a), nt(b))


def s_neg(a):
    if isinstance(a, int): return -int(a)
    if isinstance(a, float) and a == float("inf"): return NINF
    return neg(nt(a))


def s_sub(a, b):
    if islog(a) and not islog(b): return LogV(mul(lg(a).e, exp(neg(nt(b)))))
    if islog(a): return LogV(div(lg(a).e, lg(b).e))
    if isinstance(a, int) and isinstance(b, int): return a - b
    return sub(nt(a), nt(b))


def s_mul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    for x, y in ((a, b), (b, a)):
        if isinstance(x, LogV) and isnum(y) and y == 1: return x
    if isinstance(a, T) and isinstance(b, T) and a.sort == b.sort == "B": return and_(a, b)
    return mul(nt(a), nt(b))


def s_div(a, b): return div(nt(a), nt(b))


def s_floordiv(a, b):
    if isinstance(a, int) and isinstance(b, int): return a // b
    a, b = nt(a), nt(b)
    if a.sort == b.sort == "I": return app("floordiv", a, b, sort="I")
    raise Unsupported("floor division of reals")


def s_mod(a, b):
    if isinstance(a, int) and isinstance(b, int): return a % b
    a, b = nt(a), nt(b)
    if a.sort == b.sort == "I": return app("mod", a, b, sort="I")
    raise Unsupported("modulo of reals")


def s_pow(a, b):
    if isinstance(a, int) and isinstance(b, int) and b >= 0: return a ** b
    b = nt(b); a = nt(a)
    if b.op == "c":
        if b.a[0].denominator > 100: raise Unsupported("exponent")
        return pw(a, b.a[0])
    return app("pow", a, b)


def s_cmp(op, a, b):
    inf = float("inf")
    for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
        if isinstance(y, float) and y == inf and not (isinstance(x, float) and x == inf):
            return {"<": True, "<=": True, ">": False, ">=": False, "==": False, "!=": True}[o]
    if islog(a) or islog(b):
        if islog(a) and islog(b): a, b = lg(a).e, lg(b).e
        else: a, b = lg(a).e, lg(b).e
    elif isnum(a) and isnum(b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    a, b = tm(a), tm(b)
    if op in ("==", "!="):
        if (a.sort == "B") != (b.sort == "B"): a, b = num01(a), num01(b)
        r = eq(a, b) if a.sort != "B" else or_(and_(a, b), and_(not_(a), not_(b)))
        return r if op == "==" else not_(r)
    a, b = num01(a), num01(b)
    r = lt(a, b) if op == "<" else le(a, b) if op == "<=" else lt(b, a) if op == ">" else le(b, a)
    return r


def s_log(a):
    if isinstance(a, LogV): return LogV(log(a.e))
    return LogV(nt(a))


def s_exp(a):
    if islog(a): return lg(a).e
    return exp(nt(a))


def s_abs(a):
    if isinstance(a, int): return abs(a)
    return app("abs", nt(a))


def s_ite(c, a, b):
    c = c if isinstance(c, T) else (TRUE if c else FALSE)
    if c is TRUE: return a
    if c is FALSE: return b
    if islog(a) or islog(b): return LogV(ite(c, lg(a).e, lg(b).e))
    if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, T) and a.sort == "B") or (isinstance(b, T) and b.sort == "B"):
        a, b = tm(a), tm(b)
        if a.sort == b.sort == "B": return ite(c, a, b)
        return ite(c, num01(a), num01(b))
    return ite(c, nt(a), nt(b))


def s_max(a, b):
    if isinstance(a, int) and isinstance(b, int): return max(a, b)
    if islog(a) or islog(b):
        a, b = lg(a).e, lg(b).e
        return LogV(max2(a, b))
    return max2(nt(a), nt(b))


def max2(a, b):
    if a is ZERO or b is ZERO:
        from .nf import sign
        o = b if a is ZERO else a
        if sign(o) in (1, 2): return o
    c = lt(a, b)
    return ite(c, b, a)


def s_min(a, b):
    if isinstance(a, int) and isinstance(b, int): return min(a, b)
    if islog(a) or islog(b):
        a, b = lg(a).e, lg(b).e; return LogV(ite(lt(b, a), b, a))
    a, b = nt(a), nt(b)
    return ite(lt(b, a), b, a)


def s_not(a):
    if isinstance(a, T): return not_(a if a.sort == "B" else not_(eq(a, 0)))
    return not a


# ------------------------------------------------------------ heap handles
_hid = itertools.count()


class H:
    def __init__(self): self.hid = next(_hid)
    def __hash__(self): return self.hid
    def __eq__(self, o): return self is o


class Obj(H):
    def __init__(self, cls): super().__init__(); self.cls = cls
    def __repr__(self): return f"<obj {getattr(self.cls, 'name', self.cls)}>"


class Frame(H): pass
class ListV(H): pass
class DictV(H): pass


class Cell(H):
    def __init__(self, shape, owner=None): super().__init__(); self.shape = tuple(shape); self.owner = owner


class Arr:
    """an ndarray: a view of a cell.  spec has one entry per base axis:
    ('fix', term) or ('ax', view axis, start, step)"""
    __slots__ = ("cell", "shape", "spec", "dtype")
    def __init__(self, cell, shape, spec, dtype="f"): self.cell = cell; self.shape = tuple(shape); self.spec = spec; self.dtype = dtype
    ndim = property(lambda s: len(s.shape))
    def __repr__(self): return f"Arr{self.shape}:{self.dtype}"


class Seq:
    """python sequence with symbolic parts: ('one', v) | ('many', n, k, v)  (v a template in k)"""
    def __init__(self, parts): self.parts = list(parts)
    def length(self):
        n = 0
        for p in self.parts: n = s_add(n, 1 if p[0] == "one" else p[1])
        return n


class Opaque:
    """a value nothing is known about except its identity (messages, dtypes, ...)"""
    def __init__(self, what, **kw): self.what = what; self.__dict__.update(kw)
    def __repr__(self): return f"<{self.what}>"


class FuncV:
    def __init__(self, node, mod, cls=None, closure=None, name=None): self.node = node; self.mod = mod; self.cls = cls; self.closure = closure; self.name = name or getattr(node, "name", "<lambda>"); self.defaults = None
    @property
    def qual(self): return f"{self.mod.name}." + (self.cls.name + "." if self.cls else "") + self.name
    def __repr__(self): return "<func " + self.qual + ">"


class BoundM:
    def __init__(self, f, self_): self.f = f; self.self_ = self_
    def __eq__(self, o): return isinstance(o, BoundM) and o.f is self.f and o.self_ is self.self_
    def __hash__(self): return hash(id(self.f))


class Builtin:
    def __init__(self, name, fn): self.name = name; self.fn = fn
    def __repr__(self): return "<builtin " + self.name + ">"


class ModV:
    def __init__(self, path): self.path = path
    def __repr__(self): return "<module " + self.path + ">"


class ClassV:
    def __init__(self, name, mod, node, bases): self.name = name; self.mod = mod; self.node = node; self.bases = bases; self.ns = {}; self._mro = None
    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro()) for b in self.bases] + [list(self.bases)]; out = [self]
            while any(seqs):
                seqs = [s for s in seqs if s]
                if not seqs: break
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs): break
                else: raise Unsupported("inconsistent MRO of " + self.name)
                out.append(h); seqs = [[x for x in t if x is not h] if t[0] is h else t for t in seqs]
            self._mro = out
        return self._mro
    def lookup(self, name, after=None):
        m = self.mro()
        if after is not None: m = m[m.index(after) + 1:]
        for c in m:
            if name in c.ns: return c.ns[name]
        return None
    def __repr__(self): return "<class " + self.name + ">"


class PropV:
    def __init__(self, fget): self.fget = fget; self.fset = None


class PyExc(Exception):
    def __init__(self, name, args=(), node=None): super().__init__(name); self.name = name; self.args_ = args; self.node = node


EXC_BASES = {"LinAlgError": ["ValueError", "Exception"], "NotFittedError": ["ValueError", "AttributeError", "Exception"], "NotImplementedError": ["RuntimeError", "Exception"],
             "ValueError": ["Exception"], "TypeError": ["Exception"], "AttributeError": ["Exception"], "KeyError": ["LookupError", "Exception"], "IndexError": ["LookupError", "Exception"],
             "AssertionError": ["Exception"], "ZeroDivisionError": ["ArithmeticError", "Exception"]}


class Ret(Exception):
    def __init__(self, v): self.v = v


class Brk(Exception): pass
class Cont(Exception): pass
