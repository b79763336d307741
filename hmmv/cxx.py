"""The C++ kernels: clang's typed AST of /repo/ext/_hmmc.cpp (taken on every run) executed by the symbolic
interpreter.  Dropped: machine integer width, rounding, the GIL object, floating point exception flags,
message texts.  Every element access emits an in-bounds obligation, every real division a nonzero one."""
import json, os, re, subprocess, sys, tempfile
from fractions import Fraction
from .terms import *
from .val import *
from .nf import canon
from . import npm, interp as IT
from .interp import SymIter

INTS = ("int", "long", "ssize_t", "unsigned long", "size_t", "Py_ssize_t", "unsigned int", "std::size_t", "long long", "py::ssize_t", "unsigned", "ptrdiff_t", "bool", "const int", "const long", "const ssize_t", "const size_t")
SKIP = ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr")


def parse(path):
    """the FunctionDecls of the file, from clang's AST"""
    src = open(path).read()
    inc = [l for l in src.splitlines() if re.match(r"\s*#\s*include", l)]
    py = "/opt/venv/bin/python"
    ii = subprocess.run([py, "-m", "pybind11", "--includes"], capture_output=True, text=True).stdout.split()
    with tempfile.TemporaryDirectory() as d:
        w = os.path.join(d, "w.cpp")
        open(w, "w").write("\n".join(inc) + '\nnamespace HMMCV {\n#include "%s"\n}\n' % os.path.abspath(path))
        r = subprocess.run(["clang++", "-std=c++11", "-fsyntax-only"] + ii + [w, "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=HMMCV"], capture_output=True, text=True, timeout=300)
    if r.returncode: raise Unsupported("clang rejects the kernels: " + r.stderr[-400:])
    i = r.stdout.index("{")
    o, _ = json.JSONDecoder().raw_decode(r.stdout, i)
    return {f["name"]: f for f in o["inner"] if f["kind"] == "FunctionDecl" and any(x.get("kind") == "CompoundStmt" for x in f.get("inner", []))}


def qt(n): return n.get("type", {}).get("qualType", "")
def dq(n): return n.get("type", {}).get("desugaredQualType", qt(n))


def isint(n):
    t = n.get("type", {})
    return any(x.replace("const ", "").replace("&", "").strip() in INTS for x in (t.get("qualType", ""), t.get("desugaredQualType", "")) if x)


def strip(n):
    while n.get("kind") in SKIP or n.get("kind") in ("ImplicitCastExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr", "CStyleCastExpr") and len(n.get("inner", [])) == 1: n = n["inner"][0]
    return n


class Largest:
    """numeric_limits<double>::max() or lowest(): beyond every number of the exact arithmetic of the contracts"""
    def __init__(self, sign): self.sign = sign
    def __neg__(self): return Largest(-self.sign)


class Line:
    cur = "?"


def walkj(n):
    if isinstance(n, dict):
        yield n
        for x in n.get("inner", []): yield from walkj(x)


class Cxx:
    def __init__(self, fns):
        self.fns = fns; self.ids = {f["id"]: f for f in fns.values()}
        for f in fns.values():
            if f.get("previousDecl"): self.ids[f["previousDecl"]] = f
        self.lines = {}; self.inlined = set()

    # ---------------------------------------------------------------- calls
    def call(self, I, name, args):
        c = I.contracts.get("_hmmc." + name)
        if c is not None:
            r = c(I, *args)
            if r is not NotImplemented:
                I.used.add("_hmmc." + name); return r
        return self.run(I, name, args)

    def run(self, I, name, args):
        f = self.fns[name]; I.inlined.add("_hmmc." + name)
        ps = [x for x in f["inner"] if x["kind"] == "ParmVarDecl"]
        body = [x for x in f["inner"] if x["kind"] == "CompoundStmt"][0]
        fr = I.new(Frame(), {}); fr.func = None; fr.mod = None; fr.name = name
        I.depth += 1
        if I.depth > 40: raise Unsupported("call depth")
        old = getattr(I, "cfn", None); I.cfn = name
        try:
            for p, a in zip(ps, args):
                if isinstance(a, Arr) and "array_t" in qt(p):
                    t = qt(p) + dq(p)
                    if "c_style" in t or re.search(r"array_t<[^>]*,\s*\(?[^>]*\b(1|17)\b", t):
                        a = self.contig(I, a)
                I.heap[fr][self.key(p)] = a
            for p in ps[len(args):]: raise Unsupported("default argument")
            try: self.st(I, body, fr)
            except Ret as e: return e.v
            return None
        finally: I.depth -= 1; I.cfn = old

    def contig(self, I, a):
        """a forcecast c_style parameter: the same elements in a C-contiguous array"""
        if getattr(a.cell, "contig", False) and I.whole(a): return a
        b = I.copy(a); b.cell.contig = True
        return b

    def key(self, decl): return decl.get("name", "_") + "#" + decl["id"]

    # ------------------------------------------------------------ statements
    def st(self, I, n, fr):
        k = n.get("kind")
        if not k: return
        l = n.get("range", {}).get("begin", {})
        m = getattr(self, "st_" + k, None)
        if m: 
            try: return m(I, n, fr)
            except Unsupported as e:
                if not getattr(e, "where", None): e.where = f"_hmmc.{I.cfn}: {k}"
                raise
        self.ev(I, n, fr)

    def st_CompoundStmt(self, I, n, fr):
        for s in n.get("inner", []): self.st(I, s, fr)

    def st_NullStmt(self, I, n, fr): pass

    def st_DeclStmt(self, I, n, fr):
        for d in n["inner"]:
            if d["kind"] in ("TypedefDecl", "UsingDecl", "TypeAliasDecl", "StaticAssertDecl", "UsingDirectiveDecl", "NamespaceAliasDecl"): continue
            if d["kind"] != "VarDecl": raise Unsupported("declaration " + d["kind"])
            if "gil_scoped" in qt(d): continue
            inner = [x for x in d.get("inner", []) if x.get("kind") and not x["kind"].endswith(("Attr", "Comment"))]
            if not inner:
                if "array" in qt(d) or "vector" in qt(d): raise Unsupported("default constructed " + qt(d))
                v = IT.Poison("uninitialised variable " + d["name"])
            elif qt(d).rstrip().endswith("&") and "const" not in qt(d):
                v = self.lv(I, inner[0], fr)
                if v[0] == "obj": v = v[1]
                else: v = ("ref", v)
            else: v = self.ev(I, inner[0], fr)
            I.setk(fr, self.key(d), v)

    def st_IfStmt(self, I, n, fr):
        inner = n["inner"]
        if n.get("hasInit") or n.get("hasVar"): raise Unsupported("if with initialiser")
        if I.truth(self.ev(I, inner[0], fr)): self.st(I, inner[1], fr)
        elif len(inner) > 2: self.st(I, inner[2], fr)

    def st_ReturnStmt(self, I, n, fr):
        raise Ret(self.ev(I, n["inner"][0], fr) if n.get("inner") else None)

    def st_BreakStmt(self, I, n, fr): raise Brk()
    def st_ContinueStmt(self, I, n, fr): raise Cont()

    def written(self, body):
        out = set()
        for x in walkj(body):
            if x.get("kind") in ("BinaryOperator", "CompoundAssignOperator") and (x.get("opcode") or "").endswith("=") and x["opcode"] not in ("==", "!=", "<=", ">=") or x.get("kind") == "UnaryOperator" and x.get("opcode") in ("++", "--", "&"):
                t = strip(x["inner"][0])
                if t.get("kind") == "DeclRefExpr": out.add(t["referencedDecl"]["id"])
        return out

    def st_ForStmt(self, I, n, fr):
        init, _, cond, inc, body = (n["inner"] + [{}] * 5)[:5]
        if init.get("kind"): self.st(I, init, fr)
        self.loop(I, cond, inc, body, fr)

    def st_WhileStmt(self, I, n, fr):
        cond, body = n["inner"][-2:]
        ss = body.get("inner", []) if body.get("kind") == "CompoundStmt" else [body]
        if ss and self.step(ss[-1]) is not None:
            b2 = dict(body); b2["inner"] = ss[:-1]
            if not any(x.get("kind") == "ContinueStmt" for x in walkj(b2)):
                return self.loop(I, cond, ss[-1], b2, fr)
        raise Unsupported("while loop")

    def step(self, n):
        """(variable id, +-1) of an increment expression"""
        n = strip(n)
        if n.get("kind") == "UnaryOperator" and n["opcode"] in ("++", "--"):
            v = strip(n["inner"][0])
            if v.get("kind") == "DeclRefExpr": return v["referencedDecl"], 1 if n["opcode"] == "++" else -1
        if n.get("kind") == "CompoundAssignOperator" and n["opcode"] in ("+=", "-="):
            v, c = strip(n["inner"][0]), strip(n["inner"][1])
            if v.get("kind") == "DeclRefExpr" and c.get("kind") == "IntegerLiteral" and c["value"] == "1": return v["referencedDecl"], 1 if n["opcode"] == "+=" else -1
        return None

    def loop(self, I, cond, inc, body, fr):
        s = self.step(inc) if inc.get("kind") else None
        if s is None: raise Unsupported("loop increment")
        d, st = s; key = self.key(d)
        c = strip(cond)
        if c.get("kind") != "BinaryOperator" or c["opcode"] not in ("<", "<=", ">", ">=", "!="): raise Unsupported("loop condition")
        a, b = c["inner"]; op = c["opcode"]
        isv = lambda x: strip(x).get("kind") == "DeclRefExpr" and strip(x)["referencedDecl"]["id"] == d["id"]
        if isv(a): bound = b
        elif isv(b): bound = a; op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        else:
            # for (auto t = n; t-- > 0;) and the like are out of scope
            raise Unsupported("loop condition")
        w = self.written(body)
        if d["id"] in w: raise Unsupported("loop variable written in the loop body")
        if any(x.get("kind") == "DeclRefExpr" and x["referencedDecl"]["id"] in w for x in walkj(bound)): raise Unsupported("loop bound written in the loop body")
        lo = self.ev(I, {"kind": "@val", "v": I.heap[fr][key]}, fr); hi = self.ev(I, bound, fr)
        if st == 1 and op in ("<", "!="): n = s_sub(hi, lo)
        elif st == 1 and op == "<=": n = s_add(s_sub(hi, lo), 1)
        elif st == -1 and op in (">", "!="): n = s_sub(lo, hi)
        elif st == -1 and op == ">=": n = s_add(s_sub(lo, hi), 1)
        else: raise Unsupported("loop direction")
        if op == "!=" and I.ctx.decide(le(0, nt(n))) is not True: raise Unsupported("loop condition")
        it = SymIter(nt(n), lambda k: simp0(s_add(lo, k) if st == 1 else s_sub(lo, k)))
        nn = num(nt(n))
        if nn.op == "c" and nn.a[0] <= 4:
            for i in range(int(nn.a[0])):
                I.setk(fr, key, it.item(num(i)))
                try: self.st(I, body, fr)
                except Brk: return
                except Cont: continue
            return

        def run(item):
            I.heap[fr][key] = item
            try: self.st(I, body, fr)
            except Cont: pass
        I.sym_loop(it, run, fr)
        I.heap[fr][key] = IT.Poison("loop variable after the loop")

    def st_CXXForRangeStmt(self, I, n, fr): raise Unsupported("range for")

    # ------------------------------------------------------------ expressions
    def oblig(self, I, what, goal):
        I.oblig(f"_hmmc.{I.cfn}: {what}", goal, kind="safety")

    def read(self, I, l):
        if l[0] == "obj": return l[1]
        if l[0] == "var":
            v = I.heap[l[1]][l[2]]
            for i in l[3]: v = v[i]
            if isinstance(v, IT.Poison): raise Unsupported(v.why)
            if isinstance(v, tuple) and v and v[0] == "ref": return self.read(I, v[1])
            return v
        if l[0] == "el":
            _, a, ix = l
            self.bounds(I, a, ix, l)
            v = I.at(a, ix)
            return simp0(v) if isinstance(v, T) else v
        if l[0] == "mx":
            return l[2]
        raise Unsupported("read")

    def bounds(self, I, a, ix, l):
        for i, (x, d) in enumerate(zip(ix, a.shape)):
            g = and_(le(0, x), lt(x, num(d)))
            if g is not TRUE: self.oblig(I, f"index {show(num(x))[:60]} in range of axis {i}", g)

    def write(self, I, l, v):
        if l[0] == "var":
            _, fr, key, path = l
            cur = I.heap[fr].get(key)
            if isinstance(cur, tuple) and cur and cur[0] == "ref": return self.write(I, cur[1], v)
            def up(o, p): return v if not p else tuple(up(x, p[1:]) if i == p[0] else x for i, x in enumerate(o))
            I.setk(fr, key, up(cur, path)); return
        if l[0] == "el":
            _, a, ix = l
            self.bounds(I, a, ix, l)
            I.store(Arr(a.cell, (), tuple(("fix", x) for x in I.bidx(a, [num(i) for i in ix])), a.dtype), v if not isnum(v) or v == NINF else num(v)); return
        raise Unsupported("write")

    def flat(self, I, p, extra=0):
        """lvalue of *(p + extra)"""
        _, a, off = p[:3]
        if len(p) == 4 and extra == 0: return ("mx", a, p[3])
        off = add(nt(off), nt(extra))
        if a.ndim == 1: return ("el", a, [off])
        if not (getattr(a.cell, "contig", False)): self.oblig(I, "pointer into a C-contiguous array", FALSE)
        size = mul(ONE, *[num(d) for d in a.shape])
        self.oblig(I, f"pointer offset {show(off)[:60]} in range", and_(le(0, off), lt(off, size)))
        ix = npm.unflat(I, canon(off, I.ctx), [num(d) for d in a.shape])
        return ("el0", a, ix)

    def lv(self, I, n, fr):
        k = n["kind"]
        if k in SKIP or k in ("ImplicitCastExpr",) and n.get("castKind") in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase"): return self.lv(I, n["inner"][0], fr)
        if k == "DeclRefExpr":
            d = n["referencedDecl"]; key = self.key(d)
            if key not in I.heap[fr]: raise Unsupported("unknown variable " + d.get("name", "?"))
            v = I.heap[fr][key]
            if isinstance(v, tuple) and v and v[0] == "ref": return v[1]
            return ("var", fr, key, ())
        if k == "CXXOperatorCallExpr":
            op = strip(n["inner"][0])["referencedDecl"]["name"]
            if op in ("operator()", "operator[]"):
                a = self.ev(I, n["inner"][1], fr); ix = [nt(self.ev(I, x, fr)) for x in n["inner"][2:]]
                if isinstance(a, Arr):
                    if len(ix) != a.ndim: raise Unsupported("wrong number of indices")
                    return ("el", a, ix)
            if op == "operator*": return self.deref(I, self.ev(I, n["inner"][1], fr))
        if k == "ArraySubscriptExpr":
            p = self.ev(I, n["inner"][0], fr); return self.deref(I, p, self.ev(I, n["inner"][1], fr))
        if k == "UnaryOperator" and n["opcode"] == "*": return self.deref(I, self.ev(I, n["inner"][0], fr))
        if k == "UnaryOperator" and n["opcode"] in ("++", "--") and not n.get("isPostfix"):
            self.ev(I, n, fr); return self.lv(I, n["inner"][0], fr)
        if k == "BinaryOperator" and n["opcode"] == "=" or k == "CompoundAssignOperator":
            self.ev(I, n, fr); return self.lv(I, n["inner"][0], fr)
        if k == "MemberExpr" and n["name"] in ("first", "second"):
            l = self.lv(I, n["inner"][0], fr)
            if l[0] == "var": return ("var", l[1], l[2], l[3] + (0 if n["name"] == "first" else 1,))
        if k == "CXXMemberCallExpr":
            v = self.ev(I, n, fr); return ("obj", v)
        v = self.ev(I, n, fr)
        return ("obj", v)

    def deref(self, I, p, extra=0):
        if isinstance(p, Arr) and p.ndim == 1: return ("el", p, [nt(extra)])
        if not (isinstance(p, tuple) and p and p[0] == "flat"): raise Unsupported("dereference")
        l = self.flat(I, p, extra)
        return ("el", l[1], l[2]) if l[0] == "el0" else l

    def addr(self, I, l):
        if l[0] == "el":
            _, a, ix = l
            if a.ndim == 1: return ("flat", a, ix[0])
            off = ZERO
            for i, d in zip(ix, a.shape): off = add(mul(off, num(d)), i)
            return ("flat", a, canon(off, I.ctx))
        raise Unsupported("address of")

    def ev(self, I, n, fr):
        m = getattr(self, "ex_" + n["kind"], None)
        if n["kind"] == "@val":
            v = n["v"]
            if isinstance(v, IT.Poison): raise Unsupported(v.why)
            return v
        if m is None: raise Unsupported("C++ expression " + n["kind"])
        return m(I, n, fr)

    def one(self, I, n, fr): return self.ev(I, n["inner"][0], fr)
    ex_ParenExpr = ex_ExprWithCleanups = ex_MaterializeTemporaryExpr = ex_CXXBindTemporaryExpr = ex_ConstantExpr = ex_CXXFunctionalCastExpr = ex_CXXStaticCastExpr = ex_CStyleCastExpr = one

    def ex_ImplicitCastExpr(self, I, n, fr):
        ck = n["castKind"]
        if ck == "IntegralToBoolean": 
            v = self.one(I, n, fr); return not_(eq(nt(v), 0)) if not isinstance(v, bool) else v
        if ck == "FloatingToIntegral": raise Unsupported("float to int conversion")
        return self.one(I, n, fr)

    def ex_CXXDefaultArgExpr(self, I, n, fr): return None
    def ex_CXXBoolLiteralExpr(self, I, n, fr): return bool(n["value"])
    def ex_IntegerLiteral(self, I, n, fr): return int(n["value"])
    def ex_FloatingLiteral(self, I, n, fr): return num(Fraction(n["value"]))
    def ex_StringLiteral(self, I, n, fr): return Opaque("str")
    def ex_CXXNullPtrLiteralExpr(self, I, n, fr): return None

    def ex_DeclRefExpr(self, I, n, fr): return self.read(I, self.lv(I, n, fr))
    def ex_ArraySubscriptExpr(self, I, n, fr): return self.read(I, self.lv(I, n, fr))

    def ex_MemberExpr(self, I, n, fr):
        if n["name"] in ("first", "second"):
            v = self.one(I, n, fr)
            if isinstance(v, tuple) and len(v) == 2: return v[0 if n["name"] == "first" else 1]
        raise Unsupported("member " + n.get("name", "?"))

    def ex_ConditionalOperator(self, I, n, fr):
        c = self.ev(I, n["inner"][0], fr)
        t = tm(c) if isscal(c) else None
        d = I.ctx.decide(t if t.sort == "B" else not_(eq(t, 0)))
        if d is not None: return self.ev(I, n["inner"][1 if d else 2], fr)
        t = t if t.sort == "B" else not_(eq(t, 0)); c0 = I.ctx
        try:
            I.ctx = c0.extend(t); a = self.ev(I, n["inner"][1], fr)
            I.ctx = c0.extend(not_(t)); b = self.ev(I, n["inner"][2], fr)
        finally: I.ctx = c0
        return s_ite(t, a, b)

    def arith(self, I, op, a, b, n):
        if isinstance(a, tuple) and a and a[0] == "flat":
            if isinstance(b, tuple) and op == "-":
                if a[1].cell is not b[1].cell: raise Unsupported("difference of unrelated pointers")
                return simp0(canon(sub(nt(a[2]), nt(b[2])), I.ctx))
            if op in "+-": return ("flat", a[1], add(nt(a[2]), nt(b)) if op == "+" else sub(nt(a[2]), nt(b)))
        if isinstance(b, tuple) and b and b[0] == "flat" and op == "+": return ("flat", b[1], add(nt(b[2]), nt(a)))
        if isinstance(a, tuple) and a and a[0] == "shp": return a
        if not (isscal(a) and isscal(b)): raise Unsupported(f"arithmetic on {a!r} and {b!r}")
        if op == "+": return s_add(a, b)
        if op == "-":
            if isinstance(b, LogV): self.oblig(I, "no difference of infinities", not_(eq(b.e, 0)))
            return s_sub(a, b)
        if op == "*": return s_mul(a, b)
        if op == "/":
            if isint(n):
                a, b = nt(a), nt(b); self.oblig(I, "integer division", and_(le(0, a), lt(0, b))); return s_floordiv(simp0(a), simp0(b))
            self.oblig(I, "division by a nonzero value", not_(eq(nt(b), 0)))
            return s_div(a, b)
        if op == "%":
            a, b = nt(a), nt(b); self.oblig(I, "integer remainder", and_(le(0, a), lt(0, b))); return s_mod(simp0(a), simp0(b))
        raise Unsupported("operator " + op)

    def ex_BinaryOperator(self, I, n, fr):
        op = n["opcode"]; x, y = n["inner"]
        if op == "=":
            v = self.ev(I, y, fr); l = self.lv(I, x, fr); self.write(I, l, v); return v
        if op in ("&&", "||"):
            a = self.ev(I, x, fr); ta = tm(a) if isscal(a) else None
            ta = ta if ta.sort == "B" else not_(eq(ta, 0))
            d = I.ctx.decide(ta)
            if d is not None and d == (op == "||"): return d
            c0 = I.ctx; I.ctx = c0.extend(ta if op == "&&" else not_(ta))
            try: b = self.ev(I, y, fr)
            finally: I.ctx = c0
            tb = tm(b); tb = tb if tb.sort == "B" else not_(eq(tb, 0))
            return and_(ta, tb) if op == "&&" else or_(ta, tb)
        if op == ",": self.ev(I, x, fr); return self.ev(I, y, fr)
        a = self.ev(I, x, fr); b = self.ev(I, y, fr)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "flat" and a[1].cell is b[1].cell: return s_cmp(op, a[2], b[2])
            return s_cmp(op, a, b)
        return self.arith(I, op, a, b, n)

    def ex_CompoundAssignOperator(self, I, n, fr):
        op = n["opcode"][:-1]; l0 = self.lv(I, n["inner"][0], fr)
        b = self.ev(I, n["inner"][1], fr); a = self.read(I, l0)
        v = self.arith(I, op, a, b, n); self.write(I, l0, v); return v

    def ex_UnaryOperator(self, I, n, fr):
        op = n["opcode"]
        if op == "*": return self.read(I, self.lv(I, n, fr))
        if op == "&": return self.addr(I, self.lv(I, n["inner"][0], fr))
        if op in ("++", "--"):
            l = self.lv(I, n["inner"][0], fr); a = self.read(I, l); v = self.arith(I, op[0], a, 1, n); self.write(I, l, v)
            return a if n.get("isPostfix") else v
        v = self.one(I, n, fr)
        if op == "-": return s_neg(v) if not isinstance(v, LogV) else LogV(pw(v.e, -1))
        if op == "+": return v
        if op == "!": return s_not(v)
        raise Unsupported("operator " + op)

    def dims_of(self, I, n, fr):
        for x in walkj(n):
            if x.get("kind") == "InitListExpr" and not any(y.get("kind") == "InitListExpr" for y in x["inner"]):
                return [nt(self.ev(I, y, fr)) for y in x["inner"]]
        v = self.ev(I, n, fr)
        return [nt(v)]

    def newarr(self, I, shape, dtype="f", zero=False):
        u = fresh("UNINIT").a[0]
        a = I.arr(shape, (lambda *ix: ZERO) if zero else (lambda *ix: app(u, *ix, sort="I" if dtype == "i" else "R")), dtype)
        a.cell.contig = True
        return a

    def construct(self, I, n, fr):
        t = dq(n).replace("const ", ""); inner = [x for x in n.get("inner", []) if x.get("kind") != "CXXDefaultArgExpr"]
        t0 = qt(n).replace("const ", "")
        isarr = "array_t<" in t0.split(",")[0] and not t0.startswith("std::tuple")
        if isarr and n["kind"] == "CXXTemporaryObjectExpr" or isarr and inner and not isinstance(strip(inner[0]), type(None)) and any(x.get("kind") == "InitListExpr" for x in walkj(inner[0])) and strip(inner[0])["kind"] not in ("CXXTemporaryObjectExpr", "CXXMemberCallExpr", "CallExpr", "CXXConstructExpr"):
            if "ssize_t" in t0 or "long" in t0 or "int" in t0.split("array_t<")[1].split(">")[0]: dt = "i"
            else: dt = "f"
            return self.newarr(I, self.dims_of(I, inner[0], fr), dt)
        if t0.startswith(("std::vector", "vector")):
            vals = [self.ev(I, x, fr) for x in inner]
            if vals and isinstance(vals[0], tuple) and vals[0][0] == "shp": return ("dims", vals[0][1])
            if vals and isinstance(vals[0], tuple) and vals[0][0] == "flat" and len(vals) > 1 and isinstance(vals[1], tuple):
                p, q = vals[:2]; m = canon(sub(nt(q[2]), nt(p[2])), I.ctx)
                r = I.arr((m,), lambda i: self.read(I, self.deref(I, p, i))); r.cell.contig = True; return r
            if len(vals) == 1 and isinstance(vals[0], Arr):
                if n["kind"] == "CXXConstructExpr" and strip(inner[0])["kind"] in ("CXXTemporaryObjectExpr", "CXXConstructExpr"): return vals[0]
                r = I.copy(vals[0]); r.cell.contig = True; return r
            if vals and isscal(vals[0]):
                r = self.newarr(I, [nt(vals[0])], zero=len(vals) == 1)
                if len(vals) > 1: I.store(r, vals[1] if not isnum(vals[1]) or vals[1] == NINF else num(vals[1]))
                return r
            raise Unsupported("vector constructor")
        if t0.startswith(("std::tuple", "tuple", "std::pair", "pair")) and len(inner) >= 2: return tuple(self.ev(I, x, fr) for x in inner)
        if len(inner) == 1: return self.ev(I, inner[0], fr)
        raise Unsupported("construction of " + t0)

    def ex_CXXConstructExpr(self, I, n, fr): return self.construct(I, n, fr)
    def ex_CXXTemporaryObjectExpr(self, I, n, fr): return self.construct(I, n, fr)

    def ex_InitListExpr(self, I, n, fr):
        v = tuple(self.ev(I, x, fr) for x in n["inner"])
        return v[0] if len(v) == 1 else v

    def ex_CXXStdInitializerListExpr(self, I, n, fr): return self.one(I, n, fr)

    def ex_CXXThrowExpr(self, I, n, fr):
        t = qt(strip(n["inner"][0])) if n.get("inner") else ""
        raise PyExc("ValueError" if any(x in t for x in ("range_error", "invalid_argument", "domain_error", "length_error", "value_error")) else "IndexError" if "out_of_range" in t or "index_error" in t else "RuntimeError", (t,))

    def ex_CXXMemberCallExpr(self, I, n, fr):
        m = strip(n["inner"][0]); name = m["name"]; o = self.ev(I, m["inner"][0], fr)
        args = [x for x in n["inner"][1:] if x["kind"] != "CXXDefaultArgExpr"]
        if isinstance(o, Arr):
            if name in ("unchecked", "mutable_unchecked"):
                k = re.search(r"(?:reference|unchecked_reference|unchecked_mutable_reference)<[^,>]*,\s*(-?\d+)", dq(n) + " " + qt(n))
                if not k: raise Unsupported("unchecked view of dynamic rank")
                if int(k.group(1)) != o.ndim: raise PyExc("ValueError", ("array has incorrect number of dimensions",))
                return o
            if name == "shape":
                if not args: return ("shp", o)
                i = self.ev(I, args[0], fr)
                if not isinstance(i, int): raise Unsupported("shape index")
                if i >= o.ndim: raise PyExc("IndexError")
                return simp0(num(o.shape[i]))
            if name == "ndim": return o.ndim
            if name == "size": return simp0(mul(ONE, *[num(d) for d in o.shape]))
            if name in ("data", "mutable_data", "begin", "end"):
                if name == "end": return ("flat", o, nt(simp0(mul(ONE, *[num(d) for d in o.shape]))))
                if args: return self.addr(I, ("el", o, [nt(self.ev(I, x, fr)) for x in args]))
                return ("flat", o, ZERO)
            if name == "reshape":
                d = self.ev(I, args[0], fr)
                if isinstance(d, tuple) and d[0] == "dims":
                    r = npm.np_reshape(I, o, tuple(num(x) for x in d[1].shape)); r.cell.contig = True; return r
            if name == "at": return self.read(I, ("el", o, [nt(self.ev(I, x, fr)) for x in args]))
            if name in ("front", "back"): return self.read(I, ("el", o, [ZERO if name == "front" else sub(num(o.shape[0]), 1)]))
        raise Unsupported("member function " + name)

    def ex_CXXOperatorCallExpr(self, I, n, fr):
        op = strip(n["inner"][0])["referencedDecl"]["name"]
        if op == "operator=":
            v = self.ev(I, n["inner"][2], fr); l = self.lv(I, n["inner"][1], fr)
            if isinstance(v, Arr): raise Unsupported("array assignment")
            self.write(I, l, v); return v
        if op in ("operator()", "operator[]", "operator*"): return self.read(I, self.lv(I, n, fr))
        if op in ("operator<", "operator>"):
            a, b = self.ev(I, n["inner"][1], fr), self.ev(I, n["inner"][2], fr)
            if isinstance(a, tuple) and len(a) == 2: return plt(a, b) if op == "operator<" else plt(b, a)
        if op == "operator+" or op == "operator-":
            return self.arith(I, op[-1], self.ev(I, n["inner"][1], fr), self.ev(I, n["inner"][2], fr), n)
        raise Unsupported(op)

    def span(self, I, p, q):
        if not (isinstance(p, tuple) and isinstance(q, tuple) and p[0] == q[0] == "flat" and p[1].cell is q[1].cell): raise Unsupported("iterator range")
        a = p[1]; m = canon(sub(nt(q[2]), nt(p[2])), I.ctx); size = mul(ONE, *[num(d) for d in a.shape])
        self.oblig(I, "iterator range in bounds", and_(le(0, nt(p[2])), le(0, m), le(nt(q[2]), size)))
        if a.ndim > 1 and not getattr(a.cell, "contig", False): self.oblig(I, "pointer into a C-contiguous array", FALSE)

        def at(l):
            off = canon(add(nt(p[2]), l), I.ctx)
            return I.at(a, npm.unflat(I, off, [num(d) for d in a.shape]) if a.ndim > 1 else [off])
        return a, m, at

    def fam(self, I, m, at):
        """fresh bound variable l < m and the value at(l)"""
        l = fresh("r"); c0 = I.ctx; I.ctx = c0.extend(le(0, l), lt(l, m))
        try: return l, at(l)
        finally: I.ctx = c0

    def ex_CallExpr(self, I, n, fr):
        f = strip(n["inner"][0])
        if f["kind"] != "DeclRefExpr": raise Unsupported("call")
        d = f["referencedDecl"]; name = d["name"]; an = [x for x in n["inner"][1:]]
        if d["id"] in self.ids: return self.call(I, self.ids[d["id"]]["name"], [self.ev(I, x, fr) for x in an])
        if name in ("fetestexcept",): return 0
        if name in ("feclearexcept",): return 0
        if name in ("infinity",): return float("inf")
        if name in ("max", "lowest") and not an and n["type"]["qualType"] in ("double", "long double"): return Largest(1 if name == "max" else -1)
        if name in ("max", "lowest", "quiet_NaN", "epsilon", "min") and not an: raise Unsupported("numeric_limits::" + name)
        a = [self.ev(I, x, fr) for x in an if x["kind"] != "CXXDefaultArgExpr"]
        if name in ("max", "min") and len(a) == 2:
            x, y = a
            if isinstance(x, Largest) or isinstance(y, Largest):
                if isinstance(x, Largest) and isinstance(y, Largest): raise Unsupported("two numeric limits")
                big, o = (x, y) if isinstance(x, Largest) else (y, x)
                if islog(o) or isinstance(o, tuple): raise Unsupported("a numeric limit beside a log value")  # -inf, unlike every number of this arithmetic, lies beyond it
                return o if (name == "min") == (big.sign > 0) else big
            if isinstance(x, tuple):
                c = plt(x, y) if name == "max" else plt(y, x)
                return ((s_max if name == "max" else s_min)(x[0], y[0]), s_ite(c, y[1], x[1]))
            return (s_max if name == "max" else s_min)(x, y)
        if name in ("exp", "log", "log1p", "expm1", "abs", "fabs", "sqrt", "isinf", "isnan", "isfinite", "pow", "fmax", "fmin"):
            x = a[0]
            if name == "exp": return s_exp(x)
            if name == "log": return s_log(x)
            if name == "log1p": return s_log(s_add(num(1), x))
            if name == "expm1": return s_sub(s_exp(x), 1)
            if name in ("abs", "fabs"):
                if isinstance(x, LogV): return LogV(ite(lt(x.e, 1), pw(x.e, -1), x.e))
                return s_abs(x)
            if name == "sqrt": return sqrt(nt(x))
            if name == "isinf": return eq(lg(x).e, 0) if islog(x) else False
            if name == "isfinite": return not_(eq(lg(x).e, 0)) if islog(x) else True
            if name == "isnan": return False
            if name in ("fmax", "fmin"): return (s_max if name == "fmax" else s_min)(*a)
            return s_pow(*a)
        if name in ("move", "forward"): return a[0]
        if name == "make_pair" or name == "make_tuple": return tuple(a)
        if name == "max_element":
            arr, m, at = self.span(I, a[0], a[1]); l, v = self.fam(I, m, at)
            self.oblig(I, "max_element of a nonempty range", le(1, m))
            t = lg(v).e if islog(v) else nt(v); mx = smax(l, m, t)
            return ("flat", arr, add(nt(a[0][2]), binder("argf", l, m, t)), LogV(mx) if islog(v) else mx)
        if name == "accumulate" and len(a) == 3:
            arr, m, at = self.span(I, a[0], a[1]); l, v = self.fam(I, m, at)
            if islog(v): raise Unsupported("sum of logs")
            return s_add(a[2], ssum(l, m, nt(v)))
        if name == "inner_product" and len(a) == 4:
            _, m, at = self.span(I, a[0], a[1]); l = fresh("r"); c0 = I.ctx; I.ctx = c0.extend(le(0, l), lt(l, m))
            try: v = mul(nt(at(l)), nt(self.read(I, self.deref(I, a[2], l))))
            finally: I.ctx = c0
            return s_add(a[3], ssum(l, m, v))
        if name in ("fill_n", "fill"):
            p = a[0]; v = a[2] if not isnum(a[2]) or a[2] == NINF else num(a[2])
            q = a[1] if name == "fill" else ("flat", p[1], add(nt(p[2]), nt(a[1])))
            arr, m, at = self.span(I, p, q)
            size = canon(mul(ONE, *[num(d) for d in arr.shape]), I.ctx)
            if nt(p[2]) is ZERO and (m is size or I.deq(m, size)): I.store(arr, v); return None
            if arr.ndim == 1: I.store(I.rows(arr, nt(p[2]), nt(q[2])), v); return None
            if arr.ndim == 2 and I.deq(m, num(arr.shape[1])):
                qd, rm = npm.idiv(I.ctx, canon(nt(p[2]), I.ctx), num(arr.shape[1]))
                if rm is ZERO: I.store(I.index(arr, (qd,)), v); return None
            raise Unsupported("fill of part of an array")
        if name == "copy":
            arr, m, at = self.span(I, a[0], a[1]); q = a[2]
            if isinstance(q, tuple) and q[1].ndim == 1:
                I.store(I.rows(q[1], nt(q[2]), add(nt(q[2]), m)), I.arr((m,), lambda i: at(i))); return None
        raise Unsupported("call of " + name)


def plt(a, b):
    """a < b for pairs"""
    x, y = (lg(a[0]).e, lg(b[0]).e) if islog(a[0]) or islog(b[0]) else (nt(a[0]), nt(b[0]))
    return or_(lt(x, y), and_(eq(x, y), lt(nt(a[1]), nt(b[1]))))
