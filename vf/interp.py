"""Gated-SSA value-flow analysis.

One pass over the syntax tree of an entry point with in-repository calls
inlined.  Control-flow joins become gates (ite/when), loops become one abstract
iteration over a symbolic domain with phi terms for loop-carried state.  No
path is enumerated, nothing is executed and no solver is involved.
"""
import ast
from .ir import *
from .norm import *
from . import norm
from .front import Repo, Func, Class, Module, walk_own


class Ref:
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr


class Closure:
    def __init__(self, node, depth, module, func):
        self.node = node
        self.depth = depth  # frame index it closes over
        self.module = module
        self.func = func


class FnVal:
    def __init__(self, f):
        self.f = f


class BM:
    def __init__(self, f, recv):
        self.f = f
        self.recv = recv


class ExtM:
    """method of a value that is not defined in the repository"""

    def __init__(self, recv_node, recv, name, lv):
        self.recv_node = recv_node
        self.recv = recv
        self.name = name
        self.lv = lv


class ClsVal:
    def __init__(self, c):
        self.c = c


class ModVal:
    def __init__(self, m):
        self.m = m


class ExtVal:
    def __init__(self, d):
        self.d = d


class SuperVal:
    def __init__(self, cls, recv):
        self.cls = cls
        self.recv = recv


class Event:
    __slots__ = ("kind", "term", "ctx", "line", "func", "file", "extra", "seq")

    def __init__(self, kind, term, ctx, line, func, file, extra=None):
        self.kind, self.term, self.ctx = kind, term, ctx
        self.line, self.func, self.file, self.extra = line, func, file, extra

    def loops(self):
        return [c for c in self.ctx if c[0] == "each"]

    def conds(self):
        return [c[1] for c in self.ctx if c[0] == "when"]

    def where(self):
        return f"{self.file}:{self.line} ({self.func})"

    def __repr__(self):
        cs = " ".join(
            f"[{c[0]} {show(c[1], 5)}]" if c[0] not in ("try", "else") else f"[try {c[1]}]"
            for c in self.ctx if c[0] != "ok"
        )
        return f"{self.kind}@{self.line} {cs} {show(self.term, 7) if self.term is not None else ''}"


class State:
    __slots__ = ("frames", "heap", "ctx", "dead")

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.ctx = ()
        self.dead = None

    def copy(self):
        s = State()
        s.frames = [dict(f) for f in self.frames]
        s.heap = dict(self.heap)
        s.ctx = self.ctx
        s.dead = self.dead
        return s

    def assign(self, o):
        self.frames, self.heap, self.ctx, self.dead = o.frames, o.heap, o.ctx, o.dead


MUTATORS = {
    "append", "extend", "insert", "add", "update", "pop", "remove", "clear",
    "setdefault", "discard", "sort", "reverse", "popitem", "popleft", "appendleft", "fill",
}
MUT_KINDS = ("array", "list", "set", "dict")
BINOP = {
    ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div",
    ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor", ast.LShift: "lshift",
    ast.RShift: "rshift", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow",
    ast.MatMult: "matmul",
}


class Summary:
    pass


class Stop(Exception):
    pass


class Interp:
    def __init__(self, repo, prims=(), no_inline=None, max_depth=25):
        self.repo = repo
        self.prims = set(prims)
        self.no_inline = no_inline  # predicate Func -> bool
        self.events = []
        self.mute = 0
        self.closing = []
        self.namekinds = {}
        self.alias = {}
        self.naddr = 0
        self.stack = []  # (Func, module)
        self.fctx = []  # per function: dict(returns, entry ctx len)
        self.loops = []
        self.max_depth = max_depth
        self.opaque = []
        self.nraised = 0
        self.origin = {}
        self.inlined = set()
        self.mutcache = {}
        self.ncalls = 0
        self.phidef = {}
        self.loopuid = 0

    # ---------------------------------------------------------- plumbing
    def new(self, st, content):
        self.naddr += 1
        st.heap[self.naddr] = content
        return Ref(self.naddr)

    def V(self, st, x):
        if isinstance(x, T):
            return x
        if isinstance(x, Ref):
            return st.heap[x.addr]
        if isinstance(x, FnVal):
            return mk("fn", x.f.qual)
        if isinstance(x, BM):
            return mk("bm", x.f.qual)
        if isinstance(x, ClsVal):
            return mk("cls", x.c.qual)
        if isinstance(x, ModVal):
            return mk("mod", x.m.name)
        if isinstance(x, ExtVal):
            return mk("ext", x.d)
        if isinstance(x, ExtM):
            return Attr(self.V(st, x.recv), x.name)
        if isinstance(x, Closure):
            return self.closure_term(st, x)
        if isinstance(x, SuperVal):
            return mk("super", x.cls.qual)
        raise AssertionError(x)

    def closure_term(self, st, c):
        if isinstance(c.node, ast.Lambda):
            s = st.copy()
            names = [a.arg for a in c.node.args.args]
            args = [mk("lv", i) for i in range(len(names))]
            self.mute += 1
            try:
                r = self.call_closure(s, c, args, {}, c.node)
                return mk("lambda", len(names), self.V(s, r))
            finally:
                self.mute -= 1
        a = c.node.args
        if len(st.frames) > c.depth and not a.vararg and not a.kwarg and c.node not in self.closing:
            s = st.copy()
            names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            bound = {x: self.new(s, mk("lv", i)) for i, x in enumerate(names)}
            saved, self.events = self.events, []
            n0 = len(s.ctx)
            self.closing.append(c.node)
            try:
                r = self.run(s, c.func, c.node, bound, c.module, c.depth, c.node)
                eff = tuple((e.kind, e.term) for e in self.events if (e.kind == "raise" or e.extra == "stmt") and isinstance(e.term, T))
                v = self.V(s, r) if r is not None else NONE
            finally:
                self.closing.pop()
                self.events = saved
            if not eff:
                return mk("lambda", len(names), v)
            return mk("lambda", len(names), mk("tuple", (v,) + tuple(mk("call", k, (t,), ()) for k, t in eff)))
        return mk("closure", ast.dump(c.node))

    @property
    def module(self):
        return self.stack[-1][1]

    @property
    def func(self):
        return self.stack[-1][0]

    def emit(self, st, kind, term, node, extra=None):
        if self.mute:
            return None
        f = self.func
        e = Event(kind, term, st.ctx, getattr(node, "lineno", 0), f.qual if f else "<module>", self.module.rel, extra)
        e.seq = len(self.events)
        self.events.append(e)
        return e

    def opq(self, node, why=""):
        try:
            src = ast.unparse(node)[:80]
        except Exception:
            src = str(node)
        t = mk("opaque", why, src)
        self.opaque.append((self.module.rel, getattr(node, "lineno", 0), why))
        return t

    # ---------------------------------------------------------- names
    def lookup(self, st, name):
        i = len(st.frames) - 1
        while i is not None and i >= 0:
            fr = st.frames[i]
            if name in fr:
                return fr[name]
            j = fr.get("__parent__")
            if j is not None and j >= i:
                break  # its surroundings are gone
            i = j
        return self.global_name(st, self.module, name)

    def global_name(self, st, module, name):
        r = self.repo.resolve(module, name)
        if r is None:
            return ExtVal(name)
        return self.entity(st, r)

    def entity(self, st, r):
        if isinstance(r, Func):
            return FnVal(r)
        if isinstance(r, Class):
            return ClsVal(r)
        if isinstance(r, Module):
            return ModVal(r)
        if r[0] == "ext":
            return ExtVal(r[1])
        if r[0] == "const":
            self.stack.append((None, r[2]))
            st.frames.append({"__parent__": None})
            try:
                return self.V(st, self.eval(st, r[1]))
            finally:
                st.frames.pop()
                self.stack.pop()
        return ExtVal(str(r))

    def setname(self, st, name, v):
        fr = st.frames[-1]
        if len(self.stack) == 1:
            x = st.heap.get(v.addr) if isinstance(v, Ref) else v
            k = kind(x) if isinstance(x, T) and x is not NONE else "unknown"
            self.namekinds.setdefault(name, set()).add(k)
        if name in fr.get("__nonlocal__", ()):
            i = fr.get("__parent__")
            while i is not None:
                if name in st.frames[i]:
                    st.frames[i][name] = v
                    return
                i = st.frames[i].get("__parent__")
        fr[name] = v

    # ---------------------------------------------------------- lvalues
    def lvalue(self, st, node):
        """(Ref, path) for a mutable location, or None."""
        if isinstance(node, ast.Name):
            v = self.lookup(st, node.id)
            if isinstance(v, Ref):
                return v, ()
            return None
        if isinstance(node, ast.Attribute):
            b = self.lvalue(st, node.value)
            if b is None:
                return None
            c = self.read_path(st, *b)
            # property: not a location
            cls = self.class_of(c)
            if cls is not None:
                m = self.repo.method(cls, node.attr)
                if m is not None:
                    if m.is_prop:
                        loc = self.prop_location(m)
                        if loc:
                            return b[0], b[1] + (mk("fld", loc),)
                    return None
            return b[0], b[1] + (mk("fld", node.attr),)
        if isinstance(node, ast.Subscript):
            b = self.lvalue(st, node.value)
            if b is None:
                return None
            k = self.key(st, node.slice)
            if k.op == "tuple":
                k = canon_key(self.read_path(st, *b), k)
            return b[0], b[1] + (k,)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "setdefault" and len(node.args) == 2:
            b = self.lvalue(st, node.func.value)
            if b is None:
                return None
            return b[0], b[1] + (self.V(st, self.eval(st, node.args[0])),)
        return None

    def prop_location(self, m):
        body = [s for s in m.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute) and isinstance(body[0].value.value, ast.Name) and body[0].value.value.id == "self":
            return body[0].value.attr
        return None

    def key(self, st, node):
        return self.V(st, self.eval(st, node))

    def read_path(self, st, ref, path):
        c = st.heap[ref.addr]
        for k in path:
            c = key_read(c, k)
        return c

    def write(self, st, ref, path, action, value):
        st.heap[ref.addr] = apply_write(st.heap[ref.addr], path, action, value)
        a = self.alias.get(ref.addr)
        if a is not None and (path or action != "set"):
            if a[0].addr in st.heap:
                self.write(st, a[0], a[1] + tuple(path), action, value)

    def class_of(self, t):
        if t.op == "obj":
            return self.repo.cls(t.args[0])
        k = KINDS.get(t)
        if isinstance(k, tuple) and k[0] == "inst":
            return self.repo.cls(k[1])
        if t.op == "log":
            return self.class_of(t.args[0])
        return None

    # ---------------------------------------------------------- expressions
    def eval(self, st, node):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            return self.opq(node, "expr " + type(node).__name__)
        return m(st, node)

    def ev(self, st, node):
        return self.V(st, self.eval(st, node))

    def e_Constant(self, st, n):
        return C(n.value)

    def e_Name(self, st, n):
        return self.lookup(st, n.id)

    def e_Starred(self, st, n):
        return mk("star", self.ev(st, n.value))

    def e_Tuple(self, st, n):
        vals = [self.ev(st, x) for x in n.elts]
        if any(v.op == "star" for v in vals):
            return self.list_from(vals)
        return tup(*vals)

    def list_from(self, vals):
        es = []
        for v in vals:
            if v.op == "star":
                x = v.args[0]
                xs = norm._static_list(x)
                if xs is not None:
                    es.extend(ent((), "append", y) for y in xs)
                elif x.op == "log" and x.args[0].op == "empty":
                    es.extend(x.args[1])
                else:
                    es.append(ent((), "extend", x))
            else:
                es.append(ent((), "append", v))
        return log(empty("list"), es)

    def e_List(self, st, n):
        return self.list_from([self.ev(st, x) for x in n.elts])

    def e_Set(self, st, n):
        return mk("setof", self.list_from([self.ev(st, x) for x in n.elts]))

    def e_Dict(self, st, n):
        es = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.ev(st, v)
                if x.op == "log" and x.args[0].op == "empty":
                    es.extend(x.args[1])
                elif x.op == "empty":
                    pass
                else:
                    es.append(ent((), "update", x))
            else:
                kk = self.ev(st, k)
                es.append(ent((kk,), "set", self.ev(st, v)))
        return log(empty("dict"), es)

    def e_JoinedStr(self, st, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                t = self.ev(st, v.value)
                if v.format_spec is not None:
                    t = mk("fmt", t, self.ev(st, v.format_spec))
                parts.append(t)
        return mk_fstr(parts)

    def e_FormattedValue(self, st, n):
        return self.ev(st, n.value)

    def e_NamedExpr(self, st, n):
        v = self.eval(st, n.value)
        self.bind(st, n.target, v, n.value)
        return v

    def e_UnaryOp(self, st, n):
        v = self.ev(st, n.operand)
        if isinstance(n.op, ast.Not):
            return Not(Truth(v))
        if isinstance(n.op, ast.Invert):
            return Not(v)
        if isinstance(n.op, ast.USub):
            return Neg(v)
        return v

    def binop(self, op, a, b, node=None):
        o = BINOP.get(type(op), "op")
        if o == "add":
            ka, kb = kind(a), kind(b)
            if a.op == "const" and isinstance(a.args[0], str) or b.op == "const" and isinstance(b.args[0], str) or a.op == "fstr" or b.op == "fstr":
                return mk_fstr([a, b])
            if "list" in (ka, kb):
                return self.list_from([mk("star", a), mk("star", b)])
            if ka == "tuple" and kb == "tuple" and a.op == b.op == "tuple":
                return tup(*(a.args[0] + b.args[0]))
            return Add(a, b)
        if o == "sub":
            return Sub(a, b)
        if o == "mul":
            if kind(a) == "list" or kind(b) == "list":
                l, n = (a, b) if kind(a) == "list" else (b, a)
                return mk("repeat", l, n)
            return Mul(a, b)
        if o == "div":
            return Div(a, b)
        if o == "and":
            return And(a, b)
        if o == "or":
            return Or(a, b)
        return mk(o, a, b)

    def e_BinOp(self, st, n):
        return self.binop(n.op, self.ev(st, n.left), self.ev(st, n.right), n)

    def with_ctx(self, st, c, fn):
        old = st.ctx
        st.ctx = old + (("when", c),)
        try:
            return fn()
        finally:
            st.ctx = old

    def e_BoolOp(self, st, n):
        is_and = isinstance(n.op, ast.And)
        vals = [self.ev(st, n.values[0])]
        old = st.ctx
        for x in n.values[1:]:
            c = Truth(vals[-1])
            if changes(x):
                vals.append(self.fork(st, c if is_and else Not(c), x, None)[0])
                continue
            st.ctx = st.ctx + (("when", c if is_and else Not(c)),)
            vals.append(self.ev(st, x))
        st.ctx = old
        if all(is_bool(v) for v in vals[:-1]) and (is_bool(vals[-1]) or True) and all(is_bool(v) for v in vals):
            return And(*vals) if is_and else Or(*vals)
        r = vals[-1]
        for v in reversed(vals[:-1]):
            c = Truth(v)
            if is_and:
                r = Ite(c, r, v) if not (is_bool(v)) else Ite(c, r, FALSE)
            else:
                r = Ite(c, v, r) if not is_bool(v) else Ite(c, TRUE, r)
        return r

    def e_Compare(self, st, n):
        out = []
        left = self.ev(st, n.left)
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(st, r)
            out.append(self.cmp(op, left, right))
            left = right
        return And(*out)

    def cmp(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.Is)):
            return Eq(a, b)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return Not(Eq(a, b))
        if isinstance(op, ast.Lt):
            return Lt(a, b)
        if isinstance(op, ast.Gt):
            return Lt(b, a)
        if isinstance(op, ast.LtE):
            return Not(Lt(b, a))
        if isinstance(op, ast.GtE):
            return Not(Lt(a, b))
        if isinstance(op, (ast.In, ast.NotIn)):
            xs = norm._static_list(b if b.op != "setof" else b.args[0])
            if b.op == "call" and b.args[0] == "range" and 1 <= len(b.args[1]) <= 2 and all(is_num(z) and isinstance(cval(z), int) for z in b.args[1]):
                r = range(*[cval(z) for z in b.args[1]])
                xs = [C(z) for z in r] if len(r) <= 6 else xs
            if xs is not None and a.op == "const" and all(x.op == "const" for x in xs):
                r = C(any(x is a for x in xs))
            elif xs is not None and len(xs) <= 6 and all(x.op in ("const", "enum") for x in xs):
                r = Or(*[Eq(a, x) for x in xs])
            else:
                if b.op == "call" and b.args[0] == "m.keys":
                    b = b.args[1][0]
                ks = [e.args[0][0] for e in b.args[1] if e.op == "ent" and e.args[1] == "set" and len(e.args[0]) == 1 and e.args[0][0].op in ("const", "enum")] if b.op == "log" and b.args[0].op == "empty" else []
                if ks and len(ks) == len(b.args[1]) and len(ks) <= 6:
                    # the keys of a dictionary written out
                    r = Or(*[Eq(a, x) for x in ks])
                else:
                    r = mk("in", a, b)
            return r if isinstance(op, ast.In) else Not(r)
        return mk("cmp", type(op).__name__, a, b)

    def e_IfExp(self, st, n):
        c = Truth(self.ev(st, n.test))
        if c is TRUE:
            return self.eval(st, n.body)
        if c is FALSE:
            return self.eval(st, n.orelse)
        if changes(n.body) or changes(n.orelse):
            a, b = self.fork(st, c, n.body, n.orelse)
            return Ite(c, a, b)
        a = self.with_ctx(st, c, lambda: self.ev(st, n.body))
        b = self.with_ctx(st, Not(c), lambda: self.ev(st, n.orelse))
        return Ite(c, a, b)

    def fork(self, st, c, x, y):
        """expressions of which one is evaluated, with their effects"""
        ctx = st.ctx
        s1, s2 = st, st.copy()
        s1.ctx = ctx + (("when", c),)
        s2.ctx = ctx + (("when", Not(c)),)
        a = self.ev(s1, x)
        b = self.ev(s2, y) if y is not None else NONE
        self.join(st, c, s1, s2, ctx)
        st.ctx = ctx
        return a, b

    def e_Slice(self, st, n):
        f = lambda x: self.ev(st, x) if x is not None else NONE
        lo, hi, s = f(n.lower), f(n.upper), f(n.step)
        if is_const(lo, 0) and s is NONE:
            lo = NONE
        return mk("slice", lo, hi, s)

    def e_Subscript(self, st, n):
        b = self.eval(st, n.value)
        if isinstance(b, ClsVal):  # Enum["X"] or Generic[...]
            if self.repo.is_enum(b.c):
                return mk("enum", b.c.name, str(self.ev(st, n.slice)))
            return b
        k = self.key(st, n.slice)
        if isinstance(b, ExtVal) and b.d in ("np.r_", "np.c_"):
            parts = k.args[0] if k.op == "tuple" else (k,)
            return Call("np.concatenate", (norm.mklist(parts),), ()) if b.d == "np.r_" else Call("np.column_stack", (norm.mklist(parts),))
        bt = self.V(st, b)
        if bt.op == "log" and bt.args[0].op == "empty" and k.op == "slice":
            xs = norm._static_list(bt)
            if xs is not None and all(a is NONE or (a.op == "const") for a in k.args):
                return norm.mklist(xs[slice(*[None if a is NONE else a.args[0] for a in k.args])])
        if bt.op == "tuple" and k.op == "slice" and all(a is NONE or a.op == "const" for a in k.args):
            return tup(*bt.args[0][slice(*[None if a is NONE else a.args[0] for a in k.args])])
        return Index(bt, k)

    def e_Attribute(self, st, n):
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "super" and not n.value.args:
            f = self.func
            recv = self.lookup(st, f.params()[0]) if f and f.params() else None
            return self.super_attr(st, f.cls, recv, n.attr)
        b = self.eval(st, n.value)
        return self.attr(st, b, n.attr, n)

    def super_attr(self, st, cls, recv, name):
        for k in self.repo.mro(cls)[1:]:
            if name in k.methods:
                return BM(k.methods[name], recv)
        return ExtVal("super." + name)

    def attr(self, st, b, name, n=None):
        if isinstance(b, ModVal):
            return self.global_name_strict(st, b.m, name)
        if isinstance(b, ExtVal):
            if b.d == "np" and name == "newaxis":
                return NONE
            return ExtVal(b.d + "." + name)
        if isinstance(b, ClsVal):
            return self.class_attr(st, b, name)
        if isinstance(b, (FnVal, BM)) and name == "__name__":
            return C(b.f.name)
        t = self.V(st, b)
        cls = self.class_of(t)
        if cls is not None:
            m = self.repo.method(cls, name)
            if m is not None:
                if m.is_prop:
                    return self.inline(st, m, [b], {}, n)
                if m.is_static:
                    return FnVal(m)
                if m.is_class:
                    return BM(m, ClsVal(cls))
                recv = b
                if not isinstance(recv, Ref):
                    recv = self.new(st, t)
                    lv = self.lvalue(st, n.value) if n is not None else None
                    if lv is not None:
                        self.alias[recv.addr] = lv
                return BM(m, recv)
            if t.op == "obj" and not any(k == name for k, _ in t.args[2]):
                for k in self.repo.mro(cls):
                    if name in k.attrs and t.args[1] is NONE:
                        return self.V(st, self.eval(st, k.attrs[name]))
        if name == "__name__" and t.op == "call" and t.args[0] == "type":
            return mk("typename", t.args[1][0])
        return Attr(t, name)

    def global_name_strict(self, st, m, name):
        r = self.repo.resolve(m, name)
        if r is None:
            return ExtVal(m.name + "." + name)
        return self.entity(st, r)

    def class_attr(self, st, b, name):
        c = b.c
        m = self.repo.method(c, name)
        if m is not None:
            if m.is_class:
                return BM(m, b)
            return FnVal(m)
        if self.repo.is_enum(c):
            if name in ("name", "value", "__members__"):
                return mk("attr", mk("cls", c.qual), name)
            return mk("enum", c.name, name)
        for k in self.repo.mro(c):
            if name in k.attrs:
                self.stack.append((None, k.module))
                try:
                    return self.V(st, self.eval(st, k.attrs[name]))
                finally:
                    self.stack.pop()
        if name == "__name__":
            return C(c.name)
        return mk("attr", mk("cls", c.qual), name)

    def e_Lambda(self, st, n):
        return Closure(n, len(st.frames) - 1, self.module, self.func)

    # comprehension ------------------------------------------------------
    def comp(self, st, gens, emit_fn):
        def rec(s, i):
            if i == len(gens):
                emit_fn(s)
                return
            g = gens[i]
            it = self.eval(s, g.iter)

            def body(s2, elem):
                self.bind(s2, g.target, elem, None)
                conds = [Truth(self.ev(s2, c)) for c in g.ifs]
                c = And(*conds)
                self.guarded(s2, c, lambda s3: rec(s3, i + 1))

            self.iterate(s, it, body)

        st.frames.append({"__parent__": len(st.frames) - 1})
        try:
            rec(st, 0)
        finally:
            st.frames.pop()

    def guarded(self, st, c, fn):
        if c is TRUE:
            fn(st)
            return
        if c is FALSE:
            return
        base = st.copy()
        ctx = st.ctx
        st.ctx = ctx + (("when", c),)
        fn(st)
        if st.dead is None:
            m = self.merge(c, st, base)
            st.frames, st.heap = m.frames, m.heap
        else:
            st.assign(base)
        st.ctx = ctx

    def e_ListComp(self, st, n):
        acc = self.new(st, empty("list"))

        def em(s):
            v = self.ev(s, n.elt)
            s.heap[acc.addr] = log(s.heap[acc.addr], (ent((), "append", v),))

        self.comp(st, n.generators, em)
        return acc

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, st, n):
        r = self.e_ListComp(st, n)
        return mk("setof", self.V(st, r))

    def e_DictComp(self, st, n):
        acc = self.new(st, empty("dict"))

        def em(s):
            k = self.ev(s, n.key)
            v = self.ev(s, n.value)
            s.heap[acc.addr] = log(s.heap[acc.addr], (ent((k,), "set", v),))

        self.comp(st, n.generators, em)
        return acc

    def e_Yield(self, st, n):
        v = self.ev(st, n.value) if n.value is not None else NONE
        self.emit(st, "yield", v, n)
        self.yield_(st, "append", v)
        return NONE

    def e_YieldFrom(self, st, n):
        v = self.ev(st, n.value)
        self.emit(st, "yieldfrom", v, n)
        if v.op == "log" and v.args[0].op == "empty":
            r = self.lookup(st, "__yield__")
            st.heap[r.addr] = log(st.heap[r.addr], v.args[1])
        else:
            if v.op in ("call", "sym", "index", "attr") and kind(v) not in ("dict", "set"):
                dom = mk("dom", Len(v))
                used = {x for x in walk(v) if x.op == "iv" and x.args[0] is dom}
                used |= {mk("iv", c[1], c[2].args[1]) for c in st.ctx if c[0] == "each" and c[1] is dom}
                iv = mk("iv", dom, len(used))
                r = self.lookup(st, "__yield__")
                st.heap[r.addr] = log(st.heap[r.addr], each(dom, iv, (ent((), "append", Index(v, iv)),)))
                return NONE
            self.yield_(st, "extend", v)
        return NONE

    def yield_(self, st, action, v):
        r = self.lookup(st, "__yield__")
        if isinstance(r, Ref):
            st.heap[r.addr] = log(st.heap[r.addr], (ent((), action, v),))

    def e_Await(self, st, n):
        return self.eval(st, n.value)

    # ---------------------------------------------------------- calls
    def e_Call(self, st, n):
        # super().__init__ etc.
        f = n.func
        if isinstance(f, ast.Name) and f.id == "super":
            fn = self.func
            return SuperVal(fn.cls, self.lookup(st, fn.params()[0]))
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                fv = self.e_Attribute(st, f)
            else:
                b = self.eval(st, f.value)
                if isinstance(b, (ModVal, ExtVal, ClsVal)):
                    fv = self.attr(st, b, f.attr, f)
                else:
                    t = self.V(st, b)
                    cls = self.class_of(t)
                    m = self.repo.method(cls, f.attr) if cls is not None else None
                    if m is not None:
                        fv = self.attr(st, b, f.attr, f)
                    elif cls is not None and t.op == "obj" and any(k == f.attr for k, _ in t.args[2]):
                        fv = Attr(t, f.attr)
                    elif t.op in ("fn", "cls"):
                        fv = Attr(t, f.attr)
                    else:
                        return self.ext_method(st, n, f, b, t)
        else:
            fv = self.eval(st, f)
        args, kwargs = self.args(st, n)
        return self.apply(st, fv, args, kwargs, n)

    def args(self, st, n):
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                t = self.ev(st, a.value)
                xs = norm._static_list(t)
                if xs is not None:
                    args.extend(xs)
                else:
                    args.append(mk("star", t))
            else:
                args.append(self.eval(st, a))
        for k in n.keywords:
            if k.arg is None:
                t = self.ev(st, k.value)
                d = static_dict(t)
                if d is not None:
                    kwargs.update(d)
                else:
                    kwargs["**"] = t
            else:
                kwargs[k.arg] = self.eval(st, k.value)
        return args, kwargs

    def apply(self, st, fv, args, kwargs, n):
        self.ncalls += 1
        if isinstance(fv, FnVal):
            return self.inline(st, fv.f, args, kwargs, n)
        if isinstance(fv, BM):
            return self.inline(st, fv.f, [fv.recv] + args, kwargs, n)
        if isinstance(fv, ClsVal):
            return self.construct(st, fv.c, args, kwargs, n)
        if isinstance(fv, Closure):
            return self.call_closure(st, fv, args, kwargs, n)
        if isinstance(fv, ExtVal):
            return self.ext_call(st, fv.d, args, kwargs, n)
        if isinstance(fv, Ref):
            c = st.heap[fv.addr]
            if c.op in ("fn", "cls"):
                fv = c
            else:
                cls = self.class_of(c)
                m = self.repo.method(cls, "__call__") if cls else None
                if m is not None:
                    return self.inline(st, m, [fv] + args, kwargs, n)
                fv = c
        t = self.V(st, fv)
        if t.op == "fn":
            f = self.repo.func(t.args[0])
            if f:
                return self.inline(st, f, args, kwargs, n)
        if t.op == "ext":
            return self.ext_call(st, t.args[0], args, kwargs, n)
        if t.op == "cls":
            c = self.repo.cls(t.args[0])
            if c:
                return self.construct(st, c, args, kwargs, n)
        at = [self.V(st, a) for a in args]
        kt = {k: self.V(st, v) for k, v in kwargs.items()}
        r = mk("call", "()", (t,) + tuple(at), tuple(sorted(kt.items())))
        self.emit(st, "call", r, n)
        self.havoc_args(st, args, kwargs, None)
        return r

    def havoc_args(self, st, args, kwargs, f):
        pass

    PURE_INPLACE = {"np.divide", "np.add", "np.subtract", "np.multiply", "np.maximum", "np.minimum", "np.logical_and", "np.logical_or", "np.true_divide"}

    def ext_call(self, st, d, args, kwargs, n):
        at = tuple(self.V(st, a) for a in args)
        kt = {k: self.V(st, v) for k, v in kwargs.items()}
        if d == "zip" or d == "enumerate" or d == "range" or d == "map" or d == "filter":
            if d in ("map", "filter") and len(args) == 2:
                return self.map_filter(st, d, args, n)
            return mk("call", d, at, tuple(sorted(kt.items())))
        if d == "tqdm.tqdm" or d == "tqdm":
            return args[0] if args else kt.get("iterable", NONE)
        if d == "reversed" and args:
            xs = norm._static_list(at[0])
            if xs is not None:
                return norm.mklist(list(reversed(xs)))
        if d == "getattr" and len(at) >= 2 and at[1].op == "const":
            name = at[1].args[0]
            t = at[0]
            if t.op == "obj" and any(k == name for k, _ in t.args[2]):
                return Attr(t, name)
            if len(at) == 2:
                return self.attr(st, args[0], name, None)
            return mk("call", "getattr", at, ())
        if d == "setattr" and len(args) == 3 and at[1].op == "const" and isinstance(args[0], Ref):
            self.write(st, args[0], (mk("fld", at[1].args[0]),), "set", at[2])
            return NONE
        if d in ("copy.copy", "copy.deepcopy", "np.copy"):
            return at[0]
        if d == "np.bitwise_or.at" or d.endswith(".at") and d.startswith("np."):
            op = d[3:-3]
            act = {"add": "scatter_add", "maximum": "scatter_max", "bitwise_or": "scatter_or", "logical_or": "scatter_or", "subtract": "scatter_sub"}.get(op, "scatter_" + op)
            lv = self.lvalue(st, n.args[0]) if n.args else None
            if lv is not None and len(at) >= 3:
                self.write(st, lv[0], lv[1] + (norm_key(at[1]),), act, at[2])
                return NONE
        if d == "np.copyto" and n.args:
            lv = self.lvalue(st, n.args[0])
            if lv is not None:
                v = at[1]
                if "where" in kt:
                    v = Ite(kt["where"], at[1], self.read_path(st, *lv))
                self.wr_or_set(st, lv, v)
                return NONE
        if d.startswith("np.") and ("out" in kt or "where" in kt) and d in self.PURE_INPLACE:
            pos = list(at)
            out = kwargs.get("out")
            where = kt.get("where", TRUE)
            outnode = next((k.value for k in n.keywords if k.arg == "out"), None)
            lv = self.lvalue(st, outnode) if outnode is not None else None
            oldv = kt.get("out", mk("uninit"))
            res = Call(d, pos[:2], ()) if d not in ("np.divide", "np.true_divide") else Div(pos[0], pos[1])
            kept = None
            if oldv.op == "call" and oldv.args[0] in ("np.zeros", "np.zeros_like", "np.ones", "np.ones_like", "np.full", "np.empty"):
                kept = dict(oldv.args[2]).get("dtype")
                if kept is not None and (kept.op != "ext" or kept.args[0] not in ("np.float32", "np.float16", "np.half", "np.single")):
                    kept = None
            if where is not TRUE:
                if oldv.op == "call" and oldv.args[0] in ("np.zeros", "np.zeros_like"):
                    oldv = C(0)
                if d in ("np.divide", "np.true_divide"):
                    res = mk("call", "safediv", (pos[0], pos[1], where, oldv), ())
                else:
                    res = Ite(where, res, oldv)
            if kept is not None:
                res = Call("m.astype", (res, kept), ())
            if lv is not None:
                self.wr_or_set(st, lv, res)
            return res
        if d == "heapq.heappush" and n.args:
            lv = self.lvalue(st, n.args[0])
            if lv is not None:
                self.emit(st, "call", mk("call", d, at, ()), n)
                self.write(st, lv[0], lv[1], "append", at[1])
                return NONE
        if d == "heapq.heapify" and n.args:
            self.emit(st, "call", mk("call", d, at, ()), n)
            return NONE
        if d == "heapq.heappop" and n.args:
            t = mk("call", d, at, ())
            self.emit(st, "call", t, n)
            lv = self.lvalue(st, n.args[0])
            if lv is not None:
                self.write(st, lv[0], lv[1], "heappop", NONE)
            return t
        if d in ("itertools.chain.from_iterable",):
            r = self.new(st, empty("list"))
            return self.flat(st, at[0], r)
        if d == "itertools.chain":
            return self.list_from([mk("star", a) for a in at])
        if d == "dict" and len(at) == 1 and not kt:
            # dict of pairs
            p = single_each(at[0])
            if p is not None and p[3].op == "tuple" and len(p[3].args[0]) == 2:
                dom, iv, c, e = p
                return log(empty("dict"), each(dom, iv, when(c, (ent((e.args[0][0],), "set", e.args[0][1]),))))
        r = Call(d, at, tuple(kt.items()))
        self.emit(st, "call", r if r.op == "call" else mk("call", d, at, tuple(sorted(kt.items()))), n)
        if d in ("list",) and r.op == "call" and at and at[0].op == "call" and at[0].args[0] in ("zip", "enumerate", "range"):
            return r
        return r

    def flat(self, st, t, acc):
        def body(s, elem):
            def inner(s2, e2):
                s2.heap[acc.addr] = log(s2.heap[acc.addr], (ent((), "append", self.V(s2, e2)),))
            self.iterate(s, elem, inner)
        self.iterate(st, t, body)
        return acc

    def map_filter(self, st, d, args, n):
        acc = self.new(st, empty("list"))

        def body(s, elem):
            r = self.apply(s, args[0], [elem], {}, n)
            if d == "map":
                s.heap[acc.addr] = log(s.heap[acc.addr], (ent((), "append", self.V(s, r)),))
            else:
                c = Truth(self.V(s, r))
                s.heap[acc.addr] = log(s.heap[acc.addr], when(c, (ent((), "append", self.V(s, elem)),)))

        self.iterate(st, args[1], body)
        return acc

    def wr_or_set(self, st, lv, v):
        if not lv[1]:
            st.heap[lv[0].addr] = v
            a = self.alias.get(lv[0].addr)
            if a is not None and a[0].addr in st.heap:
                self.write(st, a[0], a[1], "set", v)
        else:
            self.write(st, lv[0], lv[1], "set", v)

    def ext_method(self, st, n, f, b, t):
        """method call on a value whose class is not in the repository"""
        name = f.attr
        args, kwargs = self.args(st, n)
        at = tuple(self.V(st, a) for a in args)
        kt = {k: self.V(st, v) for k, v in kwargs.items()}
        if name in MUTATORS and kind(t) not in ("unknown_ext",):
            lv = self.lvalue(st, f.value)
            k = kind(t)
            if lv is not None and (k in ("list", "dict", "set", "array") or t.op in ("phi", "index", "attr", "sym", "ite", "last", "fold", "log")):
                handled = self.mutate(st, lv, name, at, kt, t, n)
                if handled is not None:
                    return handled
        if name == "join" and len(at) == 1:
            return mk("call", "m.join", (t,) + at, ())
        if name == "format" and t.op == "const" and isinstance(t.args[0], str):
            r = fmt_to_fstr(t.args[0], at, kt)
            if r is not None:
                return r
        if name in ("items", "keys", "values") and not at:
            return mk("call", "m." + name, (t,), ())
        if name == "get" and len(at) >= 1:
            d = at[1] if len(at) > 1 else NONE
            if t.op == "log":
                r = log_lookup(t.args[0], t.args[1], at[0])
                if r is not None and r.op != "index":
                    return r
            return Get(t, at[0], d)
        if name == "copy" and kind(t) in ("list", "dict", "array", "set"):
            return t
        if name == "union" and len(at) == 1:
            return mk("or", tuple(sorted((t, at[0]), key=lambda x: x.dig)))
        if name == "intersection" and len(at) == 1:
            return And(t, at[0])
        r = Call("m." + name, (t,) + at, tuple(kt.items()))
        self.emit(st, "call", r if r.op == "call" else mk("call", "m." + name, (t,) + at, tuple(sorted(kt.items()))), n)
        return r

    def mutate(self, st, lv, name, at, kt, t, n):
        ref, path = lv
        if name in ("append", "add") and len(at) == 1:
            self.write(st, ref, path, "append", at[0])
        elif name == "extend" and len(at) == 1:
            x = at[0]
            if x.op == "log" and x.args[0].op == "empty":
                cur = self.read_path(st, ref, path)
                if not path:
                    st.heap[ref.addr] = log(cur, x.args[1])
                    a = self.alias.get(ref.addr)
                    if a is not None and a[0].addr in st.heap:
                        self.write(st, a[0], a[1], "extend", x)
                else:
                    self.write(st, ref, path, "set", log(cur, x.args[1])) if cur.op not in ("index", "attr") else self.write(st, ref, path, "extend", x)
            elif x.op == "empty":
                pass
            else:
                self.write(st, ref, path, "extend", x)
        elif name == "update" and (at or kt):
            if at:
                x = at[0]
                if x.op == "log" and x.args[0].op == "empty" and x.args[0].args[0] == "dict" and not path:
                    st.heap[ref.addr] = log(st.heap[ref.addr], x.args[1])
                elif x.op == "empty":
                    pass
                else:
                    self.write(st, ref, path, "update", x)
            for k, v in kt.items():
                self.write(st, ref, path + (C(k),), "set", v)
        elif name == "pop":
            r = mk("call", "m.pop", (t,) + at, ())
            if kind(t) == "list" or not at:
                self.write(st, ref, path, "pop", tup(*at))
            else:
                self.write(st, ref, path, "popkey", at[0])
            self.emit(st, "call", r, n)
            return r
        elif name == "setdefault" and len(at) == 2:
            cur = self.read_path(st, ref, path + (at[0],))
            self.write(st, ref, path, "setdefault", tup(*at))
            return mk("call", "m.setdefault", (t,) + at, ())
        elif name == "clear":
            e = empty(kind(t) if kind(t) in ("list", "dict", "set") else "list")
            if path:
                self.write(st, ref, path, "set", e)
            else:
                st.heap[ref.addr] = e
                a = self.alias.get(ref.addr)
                if a is not None and a[0].addr in st.heap:
                    self.write(st, a[0], a[1], "set", e)
        elif name == "fill" and len(at) == 1:
            self.write(st, ref, path + (FULL,), "set", at[0])
        elif name == "sort" and kind(t) != "array" and not (t.op == "call"):
            if kind(t) == "list" or path:
                self.write(st, ref, path, "sort", tup(*[v for _, v in sorted(kt.items())]))
            else:
                return None
        elif name in ("insert", "remove", "discard", "reverse", "popitem", "popleft", "appendleft"):
            self.write(st, ref, path, name, tup(*at))
            r = mk("call", "m." + name, (t,) + at, ())
            return r if name.startswith("pop") else NONE
        else:
            return None
        return NONE

    # ---------------------------------------------------------- inlining
    def bind_args(self, st, f_node, args, kwargs, module, skip=0):
        """name -> value by signature; None if the shape cannot be resolved"""
        a = f_node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        pos = list(args)
        extra = []
        for i, v in enumerate(pos):
            if i < len(names):
                out[names[i]] = v
            else:
                extra.append(v)
        kw = dict(kwargs)
        star2 = kw.pop("**", None)
        rest = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                out[k] = v
            else:
                rest[k] = v
        if a.vararg:
            out[a.vararg.arg] = tup(*[self.V(st, x) for x in extra])
        if a.kwarg:
            d = log(empty("dict"), [ent((C(k),), "set", self.V(st, v)) for k, v in rest.items()])
            if star2 is not None:
                d = log(d, (ent((), "update", star2),))
            out[a.kwarg.arg] = d
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, dn in zip(a.kwonlyargs, a.kw_defaults):
            if dn is not None:
                defaults[x.arg] = dn
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm not in out:
                if nm in defaults:
                    self.stack.append((None, module))
                    st.frames.append({"__parent__": None})
                    try:
                        out[nm] = self.V(st, self.eval(st, defaults[nm]))
                    finally:
                        st.frames.pop()
                        self.stack.pop()
                elif star2 is not None:
                    out[nm] = Index(star2, C(nm))
                else:
                    out[nm] = mk("missing", nm)
        return out

    def is_prim(self, f):
        return f.qual in self.prims or (self.no_inline is not None and self.no_inline(f))

    def prim_call(self, st, f, args, kwargs, n):
        bound = self.bind_args(st, f.node, args, kwargs, f.module)
        names = f.params()
        if f.cls is not None and not f.is_static and names:
            recv = bound.pop(names[0])
            rt = (self.V(st, recv),) if not f.is_class else ()
        else:
            rt = ()
        kt = tuple(sorted((k, self.V(st, v)) for k, v in bound.items()))
        t = mk("call", f.qual, rt, kt)
        if f.qual not in RET_KINDS:
            k = ann_kind(self.repo, f.module, f.node.returns)
            RET_KINDS[f.qual] = k if k in ("list", "dict", "set", "array") and "None" not in ast.unparse(f.node.returns) else "unknown"
        self.emit(st, "call", t, n)
        for p in self.mutated_params(f):
            v = bound.get(p)
            if isinstance(v, Ref):
                new = mk("mut", t, p)
                KINDS.setdefault(new, kind(st.heap[v.addr]))
                st.heap[v.addr] = new
        return t

    def mutated_params(self, f):
        cache = self.repo.__dict__.setdefault("_mutparams", {})
        r = cache.get(f.qual)
        if r is None:
            cache[f.qual] = ()
            saved = dict(KINDS)
            try:
                s = analyze(self.repo, f, prims=self.prims)
                r = tuple(p for p in f.params() if p in s.final and s.final[p] is not s.init.get(p) and p != "self")
            except RecursionError:
                r = ()
            finally:
                KINDS.clear()
                KINDS.update(saved)
            cache[f.qual] = r
        return r

    def inline(self, st, f, args, kwargs, n):
        if self.is_prim(f):
            return self.prim_call(st, f, args, kwargs, n)
        wrappers = [d for d in f.node.decorator_list if not is_plain_deco(d)]
        if wrappers:
            w = wrappers[0]
            bound = self.bind_args(st, f.node, args, kwargs, f.module)
            kt = tuple(sorted((k, self.V(st, v)) for k, v in bound.items() if k != "self"))
            t = mk("call", "decorated:" + f.qual, (), kt)
            self.emit(st, "call", t, n)
            return t
        if len(self.stack) > self.max_depth or any(x[0] is f for x in self.stack):
            t = self.opq(n or f.node, "recursion " + f.qual)
            return t
        self.inlined.add(f.qual)
        bound = self.bind_args(st, f.node, args, kwargs, f.module)
        return self.run(st, f, f.node, bound, f.module, None, n)

    def call_closure(self, st, c, args, kwargs, n):
        bound = self.bind_args(st, c.node, args, kwargs, c.module)
        if sum(1 for x in self.stack if x[0] is getattr(c, "func", None)) > 6:
            return self.opq(n, "closure recursion")
        return self.run(st, c.func, c.node, bound, c.module, c.depth, n)

    def run(self, st, f, node, bound, module, parent, n):
        frame = {"__parent__": parent}
        st.frames.append(frame)
        depth = len(st.frames)
        for k, v in bound.items():
            if isinstance(v, T):
                v = self.new(st, v)
            frame[k] = v
        entry = st.ctx
        self.stack.append((f, module))
        fc = {"returns": [], "entry": len(entry), "gen": False}
        self.fctx.append(fc)
        saved_loops = self.loops
        self.loops = []
        is_gen = False
        if not isinstance(node, ast.Lambda):
            is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(node))
            if is_gen:
                frame["__yield__"] = self.new(st, empty("list"))
                fc["gen"] = True
        try:
            if isinstance(node, ast.Lambda):
                v = self.eval(st, node.body)
                fc["returns"].append((TRUE, st.copy(), v))
                st.dead = "return"
            else:
                self.block(st, node.body)
        finally:
            self.loops = saved_loops
            self.fctx.pop()
            self.stack.pop()
        rets = list(fc["returns"])
        if st.dead is None:
            rets.append((TRUE, st.copy(), NONE))
        if not rets:
            # always raises
            st.frames = st.frames[: depth - 1]
            st.ctx = entry
            st.dead = "raise"
            return NONE
        if is_gen:
            rets = [(c, s, s.frames[depth - 1].get("__yield__")) for c, s, v in rets]
        c, s, v = rets[-1]
        if len(rets) > 1:
            val = self.V(s, v)
            acc = s
            same = all(isinstance(x[2], Ref) and isinstance(v, Ref) and x[2].addr == v.addr for x in rets)
            for c2, s2, v2 in reversed(rets[:-1]):
                val2 = self.V(s2, v2)
                val = merge_content(c2, val2, val)
                acc = self.merge(c2, s2, acc)
            s = acc
            if same:
                pass
            else:
                r = self.new(s, val)
                v = r
        self.left = s.frames[depth - 1] if len(s.frames) >= depth else None
        st.frames = s.frames[: depth - 1]
        st.heap = s.heap
        st.ctx = entry
        st.dead = None
        return v

    def construct(self, st, c, args, kwargs, n):
        q = "new:" + c.qual
        if c.qual in self.prims:
            init = self.repo.method(c, "__init__")
            if init is not None:
                bound = self.bind_args(st, init.node, [NONE] + args, kwargs, init.module)
                bound.pop(init.params()[0], None)
            else:
                bound = self.dc_bind(st, c, args, kwargs)
            t = mk("call", q, (), tuple(sorted((k, self.V(st, v)) for k, v in bound.items())))
            self.emit(st, "call", t, n)
            return t
        if self.repo.is_enum(c):
            return mk("call", "enum:" + c.name, tuple(self.V(st, a) for a in args), ())
        init = self.repo.method(c, "__init__")
        if c.is_dataclass and init is None:
            bound = self.dc_bind(st, c, args, kwargs)
            fields = tuple(sorted(((k, self.V(st, v)) for k, v in bound.items()), key=lambda x: x[0]))
            r = self.new(st, mk("obj", c.qual, NONE, fields))
            post = self.repo.method(c, "__post_init__")
            if post is not None:
                self.inline(st, post, [r], {}, n)
            return r
        if init is None:
            t = mk("call", q, tuple(self.V(st, a) for a in args), tuple(sorted((k, self.V(st, v)) for k, v in kwargs.items())))
            self.emit(st, "call", t, n)
            return t
        r = self.new(st, mk("obj", c.qual, NONE, ()))
        self.inline(st, init, [r] + args, kwargs, n)
        return r

    def dc_bind(self, st, c, args, kwargs):
        names = []
        for k in reversed(self.repo.mro(c)):
            for f in k.fields:
                names = [x for x in names if x[0] != f[0]] + [f]
        out = {}
        for i, v in enumerate(args):
            if i < len(names):
                out[names[i][0]] = v
        for k, v in kwargs.items():
            out[k] = v
        for nm, dflt, _ in names:
            if nm not in out and dflt is not None:
                self.stack.append((None, c.module))
                try:
                    if isinstance(dflt, ast.Call) and ast.unparse(dflt.func).split(".")[-1] == "field":
                        kw = {k.arg: k.value for k in dflt.keywords}
                        if "default" in kw:
                            out[nm] = self.ev(st, kw["default"])
                        elif "default_factory" in kw:
                            nmf = ast.unparse(kw["default_factory"])
                            out[nm] = empty(nmf) if nmf in ("list", "dict", "set") else mk("call", nmf, (), ())
                    else:
                        out[nm] = self.ev(st, dflt)
                finally:
                    self.stack.pop()
        return out

    # ---------------------------------------------------------- statements
    def block(self, st, stmts):
        for s in stmts:
            if st.dead is not None:
                return
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                self.opq(s, "stmt " + type(s).__name__)
                continue
            m(st, s)

    def s_Pass(self, st, n):
        pass

    def s_Global(self, st, n):
        self.emit(st, "global", C(",".join(n.names)), n)

    def s_Nonlocal(self, st, n):
        st.frames[-1]["__nonlocal__"] = tuple(st.frames[-1].get("__nonlocal__", ())) + tuple(n.names)

    def s_Import(self, st, n):
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            tgt = a.name if a.asname else a.name.split(".")[0]
            m = self.repo.modules.get(tgt)
            from .front import canon_ext
            st.frames[-1][nm] = ModVal(m) if m else ExtVal(canon_ext(tgt))

    def s_ImportFrom(self, st, n):
        from .front import canon_ext
        for a in n.names:
            nm = a.asname or a.name
            if n.module in self.repo.modules:
                st.frames[-1][nm] = self.global_name_strict(st, self.repo.modules[n.module], a.name)
            else:
                st.frames[-1][nm] = ExtVal(canon_ext((n.module or "") + "." + a.name))

    def s_FunctionDef(self, st, n):
        st.frames[-1][n.name] = Closure(n, len(st.frames) - 1, self.module, self.func)

    def s_ClassDef(self, st, n):
        self.opq(n, "nested class")

    def s_Expr(self, st, n):
        if isinstance(n.value, ast.Constant):
            return
        k = len(self.events)
        self.eval(st, n.value)
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and len(self.events) > k:
            e = self.events[-1]
            if e.kind == "call" and e.extra is None and e.term.op == "call" and e.term.args[0] == "m." + n.value.func.attr:
                e.extra = "stmt"

    def s_Assert(self, st, n):
        c = Truth(self.ev(st, n.test))
        self.with_ctx(st, Not(c), lambda: self.emit(st, "raise", mk("call", "AssertionError", (), ()), n))
        st.ctx = st.ctx + (("ok", c),)

    def s_Delete(self, st, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                continue
            lv = self.lvalue(st, t)
            if lv is not None and lv[1]:
                self.write(st, lv[0], lv[1][:-1], "popkey", lv[1][-1])

    def s_Assign(self, st, n):
        v = self.eval(st, n.value)
        for t in n.targets:
            self.bind(st, t, v, n.value)

    def s_AnnAssign(self, st, n):
        if n.value is None:
            return
        v = self.eval(st, n.value)
        self.bind(st, n.target, v, n.value)

    def bind(self, st, t, v, src):
        if isinstance(t, ast.Name):
            if isinstance(v, T):
                r = self.new(st, v)
                if src is not None and isinstance(src, (ast.Attribute, ast.Subscript)) and kind(v) != "scalar":
                    lv = self.lvalue(st, src)
                    if lv is not None and all(aliasable(k, lv[1][:i]) for i, k in enumerate(lv[1])):
                        self.alias[r.addr] = lv
                self.setname(st, t.id, r)
            else:
                self.setname(st, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if src is not None and isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in list(t.elts) + list(src.elts)):
                tv = self.V(st, v)
                vals = [Index(tv, C(i)) for i in range(len(t.elts))]
                for x, vv, sn in zip(t.elts, vals, src.elts):
                    self.bind(st, x, vv, None)
                return
            tv = self.V(st, v)
            si = next((i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)), None)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    after = len(t.elts) - i - 1
                    hi = C(-after) if after else NONE
                    self.bind(st, x.value, mk("index", tv, mk("slice", C(i) if i else NONE, hi, NONE)), None)
                elif si is not None and i > si:
                    self.bind(st, x, Index(tv, C(i - len(t.elts))), None)
                else:
                    self.bind(st, x, unpack_index(tv, i), None)
        elif isinstance(t, ast.Attribute):
            lv = self.lvalue(st, t)
            tv = self.V(st, v)
            if lv is not None:
                self.write(st, lv[0], lv[1], "set", tv)
                self.emit(st, "setattr", tv, t, extra=(self.read_root(st, lv), t.attr))
            else:
                self.emit(st, "setattr", tv, t, extra=(self.ev(st, t.value), t.attr))
        elif isinstance(t, ast.Subscript):
            tv = self.V(st, v)
            lv = self.lvalue(st, t)
            if lv is not None:
                path = lv[1][:-1] + tuple(split_key(lv[1][-1]))
                self.write(st, lv[0], path, "set", tv)
            else:
                self.emit(st, "setitem", tv, t, extra=(self.ev(st, t.value), self.key(st, t.slice)))
        elif isinstance(t, ast.Starred):
            self.bind(st, t.value, v, None)
        else:
            self.opq(t, "target")

    def read_root(self, st, lv):
        c = st.heap[lv[0].addr]
        return c.args[1] if c.op == "obj" else log_parts(c)[0]

    def s_AugAssign(self, st, n):
        val = self.ev(st, n.value)
        op = BINOP.get(type(n.op), "op")
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.lookup(st, t.id)
            ct = self.V(st, cur)
            if op == "add" and kind(ct) == "list" and isinstance(cur, Ref):
                if val.op == "log" and val.args[0].op == "empty":
                    st.heap[cur.addr] = log(ct, val.args[1])
                elif val.op != "empty":
                    self.write(st, cur, (), "extend", val)
                return
            new = self.binop(n.op, ct, val)
            if isinstance(cur, Ref) and kind(ct) in ("array", "set"):
                st.heap[cur.addr] = new
                a = self.alias.get(cur.addr)
                if a is not None and a[0].addr in st.heap:
                    self.write(st, a[0], a[1], op, val)
            else:
                KINDS.setdefault(new, kind(ct)) if new.op in ("phi",) else None
                self.setname(st, t.id, self.new(st, new))
            return
        lv = self.lvalue(st, t)
        if lv is not None:
            path = lv[1]
            if isinstance(t, ast.Subscript):
                path = path[:-1] + tuple(split_key(path[-1]))
            cur = self.read_path(st, lv[0], path)
            if op == "add" and kind(cur) == "list":
                self.write(st, lv[0], path, "extend", val)
            else:
                self.write(st, lv[0], path, op, val)
            if isinstance(t, ast.Attribute):
                self.emit(st, "setattr", self.binop(n.op, cur, val), t, extra=(self.read_root(st, lv), t.attr))
        else:
            self.emit(st, "setitem" if isinstance(t, ast.Subscript) else "setattr", val, t, extra=(self.ev(st, t.value), getattr(t, "attr", None)))

    def rel_cond(self, st, entry):
        """condition of the current point relative to ctx position `entry`"""
        cs = TRUE
        for c in reversed(st.ctx[entry:]):
            if c[0] == "when":
                cs = And(c[1], cs)
            elif c[0] == "each":
                cs = mk("exists", c[1], c[2], cs)
            elif c[0] == "except":
                cs = And(c[2], cs)
        return cs

    def s_Return(self, st, n):
        v = self.eval(st, n.value) if n.value is not None else NONE
        fc = self.fctx[-1]
        c = self.rel_cond(st, fc["entry"])
        s = st.copy()
        if isinstance(v, Closure) and isinstance(v.node, ast.Lambda) and len(self.stack) == 1:
            v = self.V(st, v)
        fc["returns"].append((c, s, v))
        self.emit(st, "return", self.V(st, v), n)
        st.dead = "return"

    def s_Raise(self, st, n):
        t = NONE
        if n.exc is not None:
            if isinstance(n.exc, ast.Call):
                fv = self.eval(st, n.exc.func)
                nm = fv.c.name if isinstance(fv, ClsVal) else fv.d if isinstance(fv, ExtVal) else ast.unparse(n.exc.func)
                a = tuple(self.ev(st, x) for x in n.exc.args if not isinstance(x, ast.Starred))
                t = mk("call", nm, a, ())
            else:
                fv = self.eval(st, n.exc)
                if isinstance(fv, ClsVal):
                    t = mk("call", fv.c.name, (), ())
                elif isinstance(fv, ExtVal):
                    t = mk("call", fv.d, (), ())
                else:
                    t = self.V(st, fv)
        self.emit(st, "raise", t, n)
        st.dead = "raise"

    def s_Continue(self, st, n):
        l = self.loops[-1]
        l["conts"].append((self.rel_cond(st, l["entry"]), st.copy()))
        self.emit(st, "continue", None, n)
        st.dead = "continue"

    def s_Break(self, st, n):
        l = self.loops[-1]
        c = self.rel_cond(st, l["entry"])
        l["breaks"].append((c, st.copy()))
        self.emit(st, "break", None, n)
        st.dead = "break"

    def s_If(self, st, n):
        c = Truth(self.ev(st, n.test))
        if c is TRUE:
            return self.block(st, n.body)
        if c is FALSE:
            return self.block(st, n.orelse)
        ctx = st.ctx
        s1, s2 = st, st.copy()
        s1.ctx = ctx + (("when", c),)
        s2.ctx = ctx + (("when", Not(c)),)
        self.block(s1, n.body)
        self.block(s2, n.orelse)
        self.join(st, c, s1, s2, ctx)

    def join(self, st, c, s1, s2, ctx):
        if s1.dead and s2.dead:
            d = s1.dead if s1.dead == s2.dead else "return"
            st.assign(s2)
            st.dead = d
            return
        if s1.dead:
            g = s2.ctx[len(ctx) + 1:]
            tag = "ok" if s1.dead == "raise" else "when"
            st.assign(s2)
            st.ctx = ctx + ((tag, Not(c)),) + g
            return
        if s2.dead:
            g = s1.ctx[len(ctx) + 1:]
            tag = "ok" if s2.dead == "raise" else "when"
            st.assign(s1)
            st.ctx = ctx + ((tag, c),) + g
            return
        # guards picked up inside the branches (early exits nested in them)
        g1 = [x for x in s1.ctx[len(ctx) + 1:] if x[0] in ("when", "ok")]
        g2 = [x for x in s2.ctx[len(ctx) + 1:] if x[0] in ("when", "ok")]
        m = self.merge(c, s1, s2)
        extra = []
        for c0, gs in ((c, g1), (Not(c), g2)):
            for tag, x in gs:
                extra.append((tag, Or(Not(c0), x)))
        st.assign(m)
        st.ctx = ctx + tuple(e for e in extra if e[1] is not TRUE)
        st.dead = None

    def merge(self, c, s1, s2):
        s = State()
        s.ctx = s2.ctx
        s.heap = dict(s2.heap)
        for a, v in s1.heap.items():
            w = s.heap.get(a)
            if w is None:
                s.heap[a] = v
            elif w is not v:
                s.heap[a] = merge_content(c, v, w)
        for f1, f2 in zip(s1.frames, s2.frames):
            fr = dict(f2)
            for k, v in f1.items():
                w = f2.get(k)
                if k == "__parent__" or w is v:
                    fr[k] = v
                    continue
                if w is None:
                    fr[k] = v
                    continue
                if isinstance(v, Ref) and isinstance(w, Ref) and v.addr == w.addr:
                    fr[k] = v
                    continue
                if isinstance(v, (Ref, T)) and isinstance(w, (Ref, T)):
                    self.naddr += 1
                    a = s1.heap[v.addr] if isinstance(v, Ref) else v
                    b = s2.heap[w.addr] if isinstance(w, Ref) else w
                    s.heap[self.naddr] = merge_content(c, a, b)
                    fr[k] = Ref(self.naddr)
                    continue
                if isinstance(v, ExtVal) and isinstance(w, ExtVal) and v.d == w.d:
                    continue
                fr[k] = mk("opaque", "merge", k)
            s.frames.append(fr)
        return s

    def s_With(self, st, n):
        marks = []
        for it in n.items:
            v = self.eval(st, it.context_expr)
            t = self.V(st, v)
            m = ("with", t)
            marks.append(m)
            cls = self.class_of(t)
            if it.optional_vars is not None:
                if cls is not None:
                    self.bind(st, it.optional_vars, v, None)
                else:
                    self.bind(st, it.optional_vars, v if isinstance(v, Ref) else t, None)
            st.ctx = st.ctx + (m,)
        self.block(st, n.body)
        st.ctx = tuple(c for c in st.ctx if not any(c is m for m in marks))

    def s_Try(self, st, n):
        types = []
        for h in n.handlers:
            types.append(self.exc_types(h))
        pre = st.copy()
        ctx = st.ctx
        mark, mark2 = ("try", tuple(types)), ("else", tuple(types))
        st.ctx = ctx + (mark,)
        first = len(self.events)
        fc, lp = (self.fctx[-1] if self.fctx else None), (self.loops[-1] if self.loops else None)
        outs = ([fc["returns"]] if fc else []) + ([lp["conts"], lp["breaks"]] if lp else [])
        sizes = [len(o) for o in outs]
        self.block(st, n.body)
        did = tuple(e.term for e in self.events[first:] if e.kind == "call" and isinstance(e.term, T))
        if st.dead is None and n.orelse:
            st.ctx = tuple(mark2 if c is mark else c for c in st.ctx)
            self.block(st, n.orelse)
        st.ctx = tuple(c for c in st.ctx if c is not mark and c is not mark2)
        body = st.copy()
        results = []
        ends = [len(o) for o in outs]
        turn = tuple(mk("iv", c[1], c[2].args[1]) if c[2].op != "iv" else c[2] for c in ctx if c[0] == "each")
        for h, ty in zip(n.handlers, types):
            # whether this turn's body raises an exception of these types
            flag = mk("call", "raised", (mk("tuple", did), *turn), (("types", C(repr(ty))),))
            s = pre.copy()
            s.ctx = ctx + (("except", ty, flag),)
            if h.name:
                s.frames[-1][h.name] = self.new(s, mk("exc", ty, flag))
            self.block(s, h.body)
            s.ctx = tuple(c for c in s.ctx if c[0] != "except" or c[2] is not flag)
            results.append((flag, s))
        live = [flag for flag, s in results if s.dead != "raise"]
        if live:
            # results and jumps of the body count only if it ends normally
            for o, i, j in zip(outs, sizes, ends):
                for k in range(i, j):
                    at = o[k][1]
                    m = [x for x, c in enumerate(at.ctx) if c is mark or c is mark2]
                    if not m:
                        continue
                    at.ctx = at.ctx[:m[0]] + tuple(("when", Not(f)) for f in live) + at.ctx[m[0]:]
                    o[k] = (self.rel_cond(at, (fc if fc and o is fc["returns"] else lp)["entry"]),) + o[k][1:]
        cur = body
        gone = [] if body.dead is None else [Not(Or(*live))] if body.dead != "raise" and live else []
        for flag, s in results:
            if s.dead:
                if s.dead != "raise":
                    gone.append(flag)
                continue
            if cur.dead:
                cur = s
            else:
                m = self.merge(flag, s, cur)
                m.ctx = cur.ctx
                cur = m
        st.assign(cur)
        if cur.dead is None:
            st.ctx = st.ctx + tuple(("when", Not(f)) for f in gone)
        if n.finalbody:
            d = st.dead
            st.dead = None
            self.block(st, n.finalbody)
            st.dead = st.dead or d

    def exc_types(self, h):
        if h.type is None:
            return ("*",)
        if isinstance(h.type, ast.Tuple):
            return tuple(ast.unparse(x).split(".")[-1] for x in h.type.elts)
        return (ast.unparse(h.type).split(".")[-1],)

    # ---------------------------------------------------------- loops
    def s_For(self, st, n):
        it = self.eval(st, n.iter)

        def body(s, elem):
            self.bind(s, n.target, elem, None)
            self.block(s, n.body)

        stop = self.iterate(st, it, body, stmt=True)
        if n.orelse and st.dead is None:
            self.guarded(st, Not(stop), lambda s: self.block(s, n.orelse))

    def counted(self, st, n):
        """while i < bound: ...; i += 1  as a for loop over a range, or None"""
        t = n.test
        if n.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1 or len(n.body) < 2:
            return None
        if isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name):
            i, bound = t.left.id, t.comparators[0]
        elif isinstance(t.ops[0], ast.Gt) and isinstance(t.comparators[0], ast.Name):
            i, bound = t.comparators[0].id, t.left
        else:
            return None
        last = n.body[-1]
        one = lambda e: isinstance(e, ast.Constant) and e.value == 1
        if isinstance(last, ast.AugAssign):
            ok = isinstance(last.target, ast.Name) and last.target.id == i and isinstance(last.op, ast.Add) and one(last.value)
        elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == i and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add):
            v = last.value
            ok = isinstance(v.left, ast.Name) and v.left.id == i and one(v.right) or isinstance(v.right, ast.Name) and v.right.id == i and one(v.left)
        else:
            ok = False
        if not ok:
            return None
        free = {x.id for x in ast.walk(bound) if isinstance(x, ast.Name)}
        attrs = {x.attr for x in ast.walk(bound) if isinstance(x, ast.Attribute)}
        for b in n.body[:-1]:
            for x in ast.walk(b):
                if isinstance(x, (ast.Break, ast.Continue, ast.FunctionDef, ast.Lambda)):
                    return None
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and (x.id == i or x.id in free):
                    return None
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in attrs:
                    return None
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                    if free & {y.id for y in ast.walk(x.func.value) if isinstance(y, ast.Name)}:
                        return None
        v = self.lookup(st, i)
        if not isinstance(v, (Ref, T)) or not is_const(self.V(st, v), 0):
            return None
        f = ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [bound], []), n.body[:-1], [])
        a = ast.Assign([ast.Name(i, ast.Store())], bound)
        for x in (f, a):
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return f, a

    def s_While(self, st, n):
        r = self.counted(st, n)
        if r is not None:
            self.s_For(st, r[0])
            if st.dead is None:
                self.s_Assign(st, r[1])
            return
        dom = mk("wdom", len(self.loops), sum(1 for c in st.ctx if c[0] == "each"))

        def body(s, iv):
            c = Truth(self.ev(s, n.test))
            self.emit(s, "while", c, n)
            ctx = s.ctx
            s.ctx = ctx + (("when", c),) if c is not TRUE else ctx
            self.block(s, n.body)

        self.loop(st, dom, body)

    def iterate(self, st, it, fn, stmt=False):
        t = self.V(st, it)
        segs = self.segments(st, t)
        return self.run_segs(st, segs, fn)

    def active(self, st, dom):
        return sum(1 for c in st.ctx if c[0] == "each" and c[1] is dom)

    def segments(self, st, t):
        o = t.op
        xs = norm._static_list(t)
        if xs is not None and len(xs) <= 24:
            return [("one", x) for x in xs]
        if o == "setof":
            return self.segments(st, t.args[0])
        if o == "empty":
            return []
        if o == "log" and kind(t) == "list" and all(self.structural(e) for e in t.args[1]):
            base = t.args[0]
            segs = [] if base.op == "empty" else self.segments(st, base)
            return segs + self.entry_segs(st, t.args[1], False)
        if o == "log" and kind(t) == "dict" and t.args[0].op == "empty" and all(self.dict_structural(e) for e in t.args[1]):
            return self.entry_segs(st, t.args[1], True, lambda e: e.args[0][0])
        if o == "ite" and (t.args[1].op in ("empty", "log") or t.args[2].op in ("empty", "log")):
            return [("when", t.args[0], self.segments(st, t.args[1])), ("when", Not(t.args[0]), self.segments(st, t.args[2]))]
        if o == "call":
            f, a, kw = t.args
            if f == "range":
                if len(a) == 1:
                    start, stop, step = C(0), a[0], C(1)
                elif len(a) == 2:
                    start, stop, step = a[0], a[1], C(1)
                else:
                    start, stop, step = a
                if is_const(step, 1):
                    cnt = Sub(stop, start)
                    if is_num(cnt) and 0 <= cval(cnt) <= 6:
                        return [("one", Add(start, C(i))) for i in range(cval(cnt))]
                    dom = mk("dom", cnt)
                    return [("each", dom, lambda iv: [("one", Add(start, iv))])]
                if is_const(step, -1):
                    cnt = Sub(start, stop)
                elif all(is_num(x) for x in (start, stop, step)):
                    cnt = C(len(range(cval(start), cval(stop), cval(step))))
                else:
                    cnt = call("range", a)
                dom = mk("dom", cnt)
                return [("each", dom, lambda iv: [("one", Add(start, Mul(step, iv)))])]
            if f == "reversed" and len(a) == 1 and a[0].op == "call" and a[0].args[0] == "range" and len(a[0].args[1]) <= 2:
                ra = a[0].args[1]
                start, stop = (C(0), ra[0]) if len(ra) == 1 else ra
                return self.segments(st, call("range", (Sub(stop, C(1)), Sub(start, C(1)), C(-1))))
            if f == "enumerate":
                start = a[1] if len(a) > 1 else dict(kw).get("start", C(0))
                inner = self.segments(st, a[0])
                if all(s[0] == "one" for s in inner):
                    return [("one", tup(Add(start, C(i)), s[1])) for i, s in enumerate(inner)]
                if len(inner) == 1 and inner[0][0] == "each":
                    dom, mkr = inner[0][1], inner[0][2]

                    def enr(iv):
                        r = mkr(iv)
                        if len(r) == 1 and r[0][0] == "one":
                            return [("one", tup(Add(start, iv), r[0][1]))]
                        return [("one", tup(mk("opaque", "enum-index", ""), s[1])) if s[0] == "one" else s for s in r]

                    return [("each", dom, enr)]
                dom = mk("dom", Len(a[0]))
                return [("each", dom, lambda iv: [("one", tup(Add(start, iv), Index(a[0], iv)))])]
            if f == "zip":
                segs = [self.segments(st, x) for x in a]
                if segs and all(all(s[0] == "one" for s in sg) for sg in segs):
                    return [("one", tup(*[s[1] for s in row])) for row in zip(*segs)]
                if segs and all(len(sg) == 1 and sg[0][0] == "each" for sg in segs):
                    doms = {sg[0][1] for sg in segs}
                    if len(doms) == 1:
                        dom = segs[0][0][1]
                    else:
                        ls = tuple(sorted({d.args[0] for d in doms if d.op == "dom"}, key=lambda x: x.dig))
                        dom = mk("dom", mk("zip", ls))

                    def zr(iv):
                        parts = []
                        for sg in segs:
                            r = sg[0][2](iv)
                            parts.append(r[0][1] if len(r) == 1 and r[0][0] == "one" else mk("opaque", "zip", ""))
                        return [("one", tup(*parts))]

                    return [("each", dom, zr)]
                dom = mk("dom", mk("zip", tuple(sorted({Len(x) for x in a}, key=lambda x: x.dig))))
                return [("each", dom, lambda iv: [("one", tup(*[Index(x, iv) for x in a]))])]
            if f == "m.items":
                d = a[0]
                if d.op == "empty":
                    return []
                if d.op == "log" and d.args[0].op == "empty" and all(self.dict_structural(e) for e in d.args[1]):
                    return self.entry_segs(st, d.args[1], True, lambda e: tup(e.args[0][0], e.args[2]))
                ks = mk("call", "m.keys", (d,), ())
                dom = mk("dom", Len(d))
                return [("each", dom, lambda iv: [("one", tup(mk("index", ks, iv), Index(d, mk("index", ks, iv))))])]
            if f == "m.keys":
                d = a[0]
                if d.op == "empty":
                    return []
                if d.op == "log" and d.args[0].op == "empty" and all(self.dict_structural(e) for e in d.args[1]):
                    return self.entry_segs(st, d.args[1], True, lambda e: e.args[0][0])
                dom = mk("dom", Len(d))
                return [("each", dom, lambda iv: [("one", mk("index", t, iv))])]
            if f == "m.values":
                d = a[0]
                if d.op == "empty":
                    return []
                if d.op == "log" and d.args[0].op == "empty" and all(self.dict_structural(e) for e in d.args[1]):
                    return self.entry_segs(st, d.args[1], True, lambda e: e.args[2])
                ks = mk("call", "m.keys", (d,), ())
                dom = mk("dom", Len(d))
                return [("each", dom, lambda iv: [("one", Index(d, mk("index", ks, iv)))])]
            if f == "np.ndindex" and a:
                dims = a[0].args[0] if len(a) == 1 and a[0].op == "tuple" else a

                def nest(i, acc):
                    if i == len(dims):
                        return [("one", tup(*acc))]
                    dom = mk("dom", dims[i])
                    return [("each", dom, lambda iv: nest(i + 1, acc + [iv]))]

                return nest(0, [])
            if f == "itertools.product" and a:
                def nestp(i, acc):
                    if i == len(a):
                        return [("one", tup(*acc))]

                    def lift(segs):
                        out = []
                        for s in segs:
                            if s[0] == "one":
                                out.extend(nestp(i + 1, acc + [s[1]]))
                            elif s[0] == "when":
                                out.append(("when", s[1], lift(s[2])))
                            else:
                                out.append(("each", s[1], (lambda g: lambda iv: lift(g(iv)))(s[2])))
                        return out

                    return lift(self.segments(st, a[i]))

                return nestp(0, [])
            if f in ("list", "tuple", "iter", "np.array", "np.asarray") and len(a) == 1:
                return self.segments(st, a[0])
        if o == "index" and t.args[1].op == "slice" and t.args[1].args[2] is NONE and kind(t) != "str":
            lo, hi, _ = t.args[1].args
            if t.args[0].op == "ite":
                c, p, q = t.args[0].args
                return [("when", c, self.segments(st, mk("index", p, t.args[1]))), ("when", Not(c), self.segments(st, mk("index", q, t.args[1])))]
            if t.args[0].op == "empty":
                return []
            fixed = lambda z: z is NONE or z.op == "const" and isinstance(z.args[0], int)
            if fixed(lo) and fixed(hi) and (lo is NONE or lo.args[0] >= 0):
                inner = self.segments(st, t.args[0])
                if inner and all(s[0] == "one" for s in inner):
                    return inner[slice(None if lo is NONE else lo.args[0], None if hi is NONE else hi.args[0])]
                if len(inner) == 1 and inner[0][0] == "each":
                    # part of a sequence: the turns of the whole that fall into it
                    dom, mkr = inner[0][1], inner[0][2]

                    def part(iv):
                        c = TRUE
                        if lo is not NONE and lo.args[0] > 0:
                            c = And(c, Not(Lt(iv, lo)))
                        if hi is not NONE:
                            c = And(c, Lt(iv, hi if hi.args[0] >= 0 else Add(dom.args[0], hi)))
                        r = mkr(iv)
                        return r if c is TRUE else [("when", c, r)]

                    return [("each", dom, part)]
        if kind(t) == "dict":
            ks = mk("call", "m.keys", (t,), ())
            dom = mk("dom", Len(t))
            return [("each", dom, lambda iv: [("one", mk("index", ks, iv))])]
        dom = mk("dom", Len(t))
        return [("each", dom, lambda iv: [("one", Index(t, iv))])]

    def structural(self, e):
        if e.op == "ent":
            return not e.args[0] and e.args[1] in ("append", "extend")
        return all(self.structural(x) for x in (e.args[1] if e.op == "when" else e.args[2]))

    def dict_structural(self, e):
        if e.op == "ent":
            return len(e.args[0]) == 1 and e.args[1] == "set"
        return all(self.dict_structural(x) for x in (e.args[1] if e.op == "when" else e.args[2]))

    def entry_segs(self, st, entries, isdict, val=None):
        out = []
        for e in entries:
            if e.op == "ent":
                if isdict:
                    out.append(("one", val(e)))
                elif e.args[1] == "append":
                    out.append(("one", e.args[2]))
                else:
                    out.extend(self.segments(st, e.args[2]))
            elif e.op == "when":
                out.append(("when", e.args[0], self.entry_segs(st, e.args[1], isdict, val)))
            else:
                dom, iv0, inner = e.args

                def mkr(iv, iv0=iv0, inner=inner):
                    es = inner if iv is iv0 else tuple(subst(x, {iv0: iv}) for x in inner)
                    return self.entry_segs(st, es, isdict, val)

                out.append(("each", dom, mkr))
        return out

    def run_segs(self, st, segs, fn):
        """run fn on every element; the condition under which a break ended it early"""
        for j, s in enumerate(segs):
            if st.dead is not None:
                return FALSE
            if s[0] == "one":
                stop = self.unrolled(st, lambda x: fn(x, s[1]))
            elif s[0] == "when":
                stop = self.guarded_segs(st, s[1], s[2], fn)
            else:
                stop = self.loop(st, s[1], lambda x, iv: self.run_segs_in(x, s[2](iv), fn))
            if stop is not FALSE and j + 1 < len(segs):
                more = [FALSE]

                def rest(z):
                    more[0] = self.run_segs(z, segs[j + 1:], fn)
                self.guarded(st, Not(stop), rest)
                return Or(stop, more[0])
            if stop is not FALSE:
                return stop
        return FALSE

    def run_segs_in(self, st, segs, fn):
        """inside a loop body: a single element runs in the loop's own frame"""
        if len(segs) == 1 and segs[0][0] == "one":
            fn(st, segs[0][1])
            return
        if len(segs) == 1 and segs[0][0] == "when" and len(segs[0][2]) == 1 and segs[0][2][0][0] == "one":
            c = segs[0][1]
            base = st.copy()
            ctx = st.ctx
            st.ctx = ctx + (("when", c),)
            fn(st, segs[0][2][0][1])
            if st.dead is None:
                m = self.merge(c, st, base)
                st.frames, st.heap = m.frames, m.heap
                st.ctx = ctx
            else:
                st.assign(base)
            return
        self.run_segs(st, segs, fn)

    def guarded_segs(self, st, c, segs, fn):
        if c is FALSE or not segs:
            return FALSE
        stop = [FALSE]

        def go(s):
            stop[0] = self.run_segs(s, segs, fn)
        self.guarded(st, c, go)
        return And(c, stop[0])

    def unrolled(self, st, fn):
        l = {"conts": [], "breaks": [], "entry": len(st.ctx)}
        self.loops.append(l)
        ctx = st.ctx
        fn(st)
        self.loops.pop()
        self.after_body(st, l)
        st.ctx = ctx
        return Or(*[c for c, _ in l["breaks"]])

    def after_body(self, st, l):
        alts = l["conts"] + l["breaks"]
        if st.dead in ("continue", "break"):
            if alts:
                c, s = alts[-1]
                alts = alts[:-1]
                fr = len(st.frames)
                st.assign(s.copy())
                st.frames = st.frames[:fr]
                st.dead = None
        if st.dead is None:
            for c, s in reversed(alts):
                m = self.merge(c, s, st)
                st.frames, st.heap = m.frames, m.heap

    def loop(self, st, dom, body):
        k = self.active(st, dom)
        iv = mk("iv", dom, k)
        ctx = st.ctx
        names, addrs = {}, {}
        for _ in range(4):
            s = st.copy()
            phis = self.set_phis(s, st, dom, k, names, addrs)
            start = s.copy()
            self.mute += 1
            nret = len(self.fctx[-1]["returns"]) if self.fctx else 0
            l = {"conts": [], "breaks": [], "entry": len(ctx) + 1}
            self.loops.append(l)
            s.ctx = ctx + (("each", dom, iv),)
            nop = len(self.opaque)
            try:
                body(s, iv)
            finally:
                self.loops.pop()
                self.mute -= 1
                del self.opaque[nop:]
            if self.fctx:
                del self.fctx[-1]["returns"][nret:]
            self.after_body(s, l)
            if not self.diff(start, s, st, names, addrs):
                break
        # a variable stepped once per pass is the position in the loop
        counters = {}
        if dom.op == "dom" and s.dead is None and not l["breaks"]:
            for (fi, nm), (phi, init) in phis["names"].items():
                r = s.frames[fi].get(nm)
                fin = self.V(s, r) if isinstance(r, (Ref, T)) else None
                if fin is not None and fin.op == "add" and len(fin.args[0]) == 2 and phi in fin.args[0] and is_num(init):
                    step = next((z for z in fin.args[0] if z is not phi), None)
                    if step is not None and is_num(step):
                        counters[(fi, nm)] = (init, step)
        # real run
        s = st.copy()
        self.loopuid += 1
        phis = self.set_phis(s, st, dom, k, names, addrs, self.loopuid)
        for (fi, nm), (init, step) in counters.items():
            del phis["names"][(fi, nm)]
            s.frames[fi][nm] = self.new(s, Add(init, Mul(step, iv)))
        l = {"conts": [], "breaks": [], "entry": len(ctx) + 1}
        self.loops.append(l)
        s.ctx = ctx + (("each", dom, iv),)
        nret = len(self.fctx[-1]["returns"]) if self.fctx else 0
        nev = len(self.events)
        body(s, iv)
        self.loops.pop()
        self.after_body(s, l)
        full, stop = dom, Or(*[c for c, _ in l["breaks"]])
        if stop is not FALSE:
            # what is done in a pass is done in the passes up to the one that breaks
            dom = mk("until", dom, stop)
            for e in self.events[nev:]:
                if len(e.ctx) > len(ctx) and e.ctx[len(ctx)] == ("each", full, iv):
                    e.ctx = e.ctx[:len(ctx)] + (("each", dom, iv),) + e.ctx[len(ctx) + 1:]
        rets = self.fctx[-1]["returns"][nret:] if self.fctx else []
        dead = s.dead
        if dead == "raise" or dead == "return":
            # every iteration leaves: the state after the loop is the state before it
            out = st.copy()
        else:
            out = s
            for (fi, nm), (init, step) in counters.items():
                out.frames[fi][nm] = self.new(out, Add(init, Mul(step, dom.args[0])))
            for (fi, nm), (phi, init) in phis["names"].items():
                r = s.frames[fi].get(nm)
                if r is None:
                    continue
                fin = self.V(s, r) if isinstance(r, (Ref, T)) else None
                if fin is None:
                    continue
                self.naddr += 1
                self.phidef[phi] = (init, fin)
                out.heap[self.naddr] = post(dom, iv, phi, init, fin, l["breaks"])
                out.frames[fi][nm] = Ref(self.naddr)
            for a, (phi, init) in phis["addrs"].items():
                fin = s.heap[a]
                out.heap[a] = self.post_content(dom, iv, phi, init, fin, l["breaks"])
            # names first bound in the body
            for fi, fr in enumerate(out.frames):
                for nm, r in list(fr.items()):
                    if nm.startswith("__") or fi >= len(st.frames) or nm in st.frames[fi]:
                        continue
                    if isinstance(r, Ref):
                        self.naddr += 1
                        out.heap[self.naddr] = mk("last", dom, iv, out.heap[r.addr], mk("unbound"))
                        fr[nm] = Ref(self.naddr)
        st.frames, st.heap = out.frames, out.heap
        st.dead = None
        st.ctx = ctx
        if rets:
            cs = [c for c, _, _ in rets]
            g = Not(Or(*cs))
            # condition relative to function entry already includes this loop
            st.ctx = ctx + (("when", mk("noexit", g)),)
        return FALSE if stop is FALSE else mk("exists", full, iv, stop)

    def post_content(self, dom, iv, phi, init, fin, breaks):
        if init.op == "obj" and fin.op == "obj":
            fi = dict(init.args[2])
            out = {}
            for kf, v in fin.args[2]:
                p = phi.get(kf) if isinstance(phi, dict) else None
                if p is None:
                    out[kf] = v
                else:
                    i0 = fi.get(kf)
                    if i0 is None:
                        i0 = mk("attr", init.args[1], kf)
                    self.phidef[p] = (i0, v)
                    out[kf] = post(dom, iv, p, i0, v, breaks)
            return mk("obj", fin.args[0], fin.args[1], tuple(sorted(out.items(), key=lambda x: x[0])))
        if isinstance(phi, T):
            self.phidef[phi] = (init, fin)
        return post(dom, iv, phi, init, fin, breaks)

    def set_phis(self, s, st, dom, k, names, addrs, uid=0):
        out = {"names": {}, "addrs": {}}
        for (fi, nm) in names:
            v = st.frames[fi].get(nm)
            if not isinstance(v, (Ref, T)):
                continue
            init = self.V(st, v)
            phi = mk("phi", dom, k, nm, uid)
            KINDS[phi] = kind(init)
            s.frames[fi][nm] = self.new(s, phi)
            out["names"][(fi, nm)] = (phi, init)
        for a, fields in addrs.items():
            init = st.heap[a]
            label = self.addr_name(st, a)
            if init.op == "obj" and fields:
                fd = dict(init.args[2])
                ph = {}
                for f in fields:
                    p = mk("phi", dom, k, label + "." + f, uid)
                    i0 = fd.get(f, mk("attr", init.args[1], f))
                    KINDS[p] = kind(i0)
                    fd[f] = p
                    ph[f] = p
                s.heap[a] = mk("obj", init.args[0], init.args[1], tuple(sorted(fd.items(), key=lambda x: x[0])))
                out["addrs"][a] = (ph, init)
            else:
                phi = mk("phi", dom, k, label, uid)
                kd = kind(init)
                KINDS[phi] = kd
                s.heap[a] = phi
                out["addrs"][a] = (phi, init)
        return out

    def addr_name(self, st, a):
        for fr in reversed(st.frames):
            for nm, v in fr.items():
                if isinstance(v, Ref) and v.addr == a:
                    return nm
        return f"a"

    def diff(self, start, end, st, names, addrs):
        new = False
        for fi, (f0, f1) in enumerate(zip(start.frames, end.frames)):
            for nm, v in f0.items():
                if nm.startswith("__parent") or nm == "__nonlocal__":
                    continue
                w = f1.get(nm)
                if v is w:
                    continue
                if isinstance(v, Ref) and isinstance(w, Ref) and v.addr == w.addr:
                    continue
                if nm in st.frames[fi] and (fi, nm) not in names:
                    names[(fi, nm)] = True
                    new = True
        for a in st.heap:
            x, y = start.heap.get(a), end.heap.get(a)
            if x is None or x is y:
                continue
            if x.op == "obj" and y.op == "obj":
                d0 = dict(x.args[2])
                ch = {kf for kf, v in y.args[2] if d0.get(kf) is not v}
                cur = addrs.get(a)
                if cur is None:
                    addrs[a] = set(ch)
                    new = True
                elif not ch <= cur:
                    cur |= ch
                    new = True
                continue
            if a not in addrs:
                addrs[a] = set()
                new = True
        return new


# -------------------------------------------------------------------- helpers
def is_plain_deco(d):
    n = ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1]
    return n in ("property", "classmethod", "staticmethod", "wraps", "abstractmethod", "override", "cached_property", "setter", "contextmanager", "dataclass")


def aliasable(k, before=()):
    if k.op == "fld":
        return True
    if any(x.op == "const" and isinstance(x.args[0], str) for x in before):
        return True  # inside a mapping: the key selects one entry
    if k.op == "index" and kind(k.args[0]) in ("dict", "list"):
        return True
    keys = k.args[0] if k.op == "tuple" else (k,)
    for x in keys:
        if x.op == "slice" or x.op in ("iv", "enum") or (x.op == "const" and x is not NONE):
            continue
        if kind(x) == "scalar":
            continue
        return False
    return True


def split_key(k):
    return (k,)


def norm_key(k):
    return k


def unpack_index(t, i):
    """element i of an unpacked value"""
    return Index(t, C(i)) if t.op in ("tuple", "log", "ite") or t.op == "call" else mk("index", t, C(i)) if t.op not in ("index",) else Index(t, C(i))


def static_dict(t):
    if t.op == "empty" and t.args[0] == "dict":
        return {}
    if t.op == "log" and t.args[0].op == "empty":
        out = {}
        for e in t.args[1]:
            if e.op == "ent" and len(e.args[0]) == 1 and e.args[1] == "set" and is_const(e.args[0][0]) and isinstance(cval(e.args[0][0]), str):
                out[cval(e.args[0][0])] = e.args[2]
            else:
                return None
        return out
    return None


def mk_fstr(parts):
    flat = []
    for p in parts:
        if p.op == "fstr":
            flat.extend(p.args[0])
        else:
            flat.append(p)
    out = []
    for p in flat:
        if p.op == "const" and isinstance(p.args[0], str):
            if p.args[0] == "":
                continue
            if out and out[-1].op == "const":
                out[-1] = C(out[-1].args[0] + p.args[0])
                continue
            out.append(p)
        elif is_num(p):
            s = C(str(p.args[0]))
            if out and out[-1].op == "const":
                out[-1] = C(out[-1].args[0] + s.args[0])
            else:
                out.append(s)
        else:
            if p.op == "call" and p.args[0] == "str" and len(p.args[1]) == 1:
                p = p.args[1][0]
            out.append(p)
    if not out:
        return C("")
    if len(out) == 1 and out[0].op == "const":
        return out[0]
    return mk("fstr", tuple(out))


def fmt_to_fstr(s, at, kt):
    import string
    parts = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(C(lit))
            if field is None:
                continue
            if spec or conv:
                return None
            if field == "":
                parts.append(at[auto])
                auto += 1
            elif field.isdigit():
                parts.append(at[int(field)])
            elif field in kt:
                parts.append(kt[field])
            else:
                return None
    except Exception:
        return None
    return mk_fstr(parts)


def merge_content(c, a, b):
    if a is b:
        return a
    if a.op == "obj" and b.op == "obj" and a.args[0] == b.args[0] and a.args[1] is b.args[1]:
        da, db = dict(a.args[2]), dict(b.args[2])
        out = {}
        for k in sorted(set(da) | set(db)):
            x = da.get(k)
            y = db.get(k)
            if x is None:
                x = mk("attr", a.args[1], k)
            if y is None:
                y = mk("attr", b.args[1], k)
            out[k] = merge_content(c, x, y)
        return mk("obj", a.args[0], a.args[1], tuple(sorted(out.items(), key=lambda x: x[0])))
    if a.op in ("log", "empty", "phi", "sym") or b.op in ("log", "empty", "phi", "sym"):
        ba, ea = log_parts(a)
        bb, eb = log_parts(b)
        if ba is bb and (ea or eb):
            i = 0
            while i < len(ea) and i < len(eb) and ea[i] is eb[i]:
                i += 1
            ra, rb = ea[i:], eb[i:]
            if len(ra) == 1 and len(rb) == 1 and ra[0].op == rb[0].op == "ent" and ra[0].args[0] == rb[0].args[0] and ra[0].args[1] == rb[0].args[1]:
                return log(ba, ea[:i] + (ent(ra[0].args[0], ra[0].args[1], Ite(c, ra[0].args[2], rb[0].args[2])),))
            return log(ba, ea[:i] + when(c, ra) + when(Not(c), rb))
    return Ite(c, a, b)


def _delta(t, phi):
    if t is phi:
        return C(0)
    if t.op == "add" and any(x is phi for x in t.args[0]):
        r = Sub(t, phi)
        return None if has(r, phi) else r
    if t.op == "ite" and not has(t.args[0], phi):
        a, b = _delta(t.args[1], phi), _delta(t.args[2], phi)
        if a is not None and b is not None:
            return Ite(t.args[0], a, b)
    return None


def _lat(t, phi, op):
    """t == op(phi, e): return e"""
    if t.op == op and any(x is phi for x in t.args[0]):
        rest = [x for x in t.args[0] if x is not phi]
        e = (Or if op == "or" else And)(*rest)
        return None if has(e, phi) else e
    if t.op == "ite" and not has(t.args[0], phi):
        zero = FALSE if op == "or" else TRUE
        a = zero if t.args[1] is phi else _lat(t.args[1], phi, op)
        b = zero if t.args[2] is phi else _lat(t.args[2], phi, op)
        if a is not None and b is not None:
            if op == "or":
                return Or(And(t.args[0], a), And(Not(t.args[0]), b))
            return Or(And(t.args[0], a), And(Not(t.args[0]), b))
    return None


def post(dom, iv, phi, init, fin, breaks=()):
    if fin is phi:
        return init
    b, es = log_parts(fin)
    if b is phi:
        return log(init, each(dom, iv, es))
    if breaks:
        if dom.op == "until":
            e = _lat(fin, phi, "or")
            if e is not None and e is dom.args[1] and not any(z.op == "phi" for z in walk(e)):
                # a flag that is set where the search ends
                return Or(init, mk("exists", dom.args[0], iv, e))
        return mk("fold", dom, iv, phi, init, fin)
    if not has(fin, phi):
        return mk("last", dom, iv, fin, init)
    d = _delta(fin, phi)
    if d is not None:
        return Add(init, Sum(dom, iv, d))
    e = _lat(fin, phi, "or")
    if e is not None:
        return Or(init, mk("exists", dom, iv, e))
    e = _lat(fin, phi, "and")
    if e is not None:
        return And(init, Not(mk("exists", dom, iv, Not(e))))
    return mk("fold", dom, iv, phi, init, fin)


def changes(e):
    """does evaluating the expression change an object?"""
    return any(isinstance(x, ast.NamedExpr) or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS for x in ast.walk(e))


# -------------------------------------------------------------------- entry
def ann_kind(repo, module, node):
    if node is None:
        return None
    s = ast.unparse(node).replace(" ", "").strip("'\"")
    opts = [x for x in split_union(s) if x != "None"]
    ks = set()
    for o in opts:
        if o.startswith("NDArray") or o in ("np.ndarray", "numpy.ndarray"):
            ks.add("array")
        elif o.startswith(("list[", "List[")) or o == "list":
            ks.add("list")
        elif o.startswith(("dict[", "Dict[")) or o == "dict":
            ks.add("dict")
        elif o.startswith("set[") or o == "set":
            ks.add("set")
        elif o.startswith("tuple["):
            ks.add("tuple")
        elif o in ("int", "float", "bool", "str", "Path"):
            ks.add("scalar")
        else:
            nm = o.split("[")[0].split(".")[-1]
            r = repo.resolve(module, nm) if nm.isidentifier() else None
            if isinstance(r, Class):
                ks.add(("inst", r.qual))
            else:
                ks.add("unknown")
    if len(ks) == 1:
        return next(iter(ks))
    return None


def split_union(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "[(":
            d += 1
        if ch in "])":
            d -= 1
        if ch == "|" and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    out.append(cur)
    return out




def mutated_fields(repo, cls):
    _mutfields = repo.__dict__.setdefault("_mutfields", {})
    key = cls.qual
    if key in _mutfields:
        return _mutfields[key]
    out = set()
    classes = repo.mro(cls) + repo.subclasses(cls)
    for c in classes:
        for m in c.methods.values():
            if m.name in ("__init__", "__post_init__"):
                continue
            for n in ast.walk(m.node):
                tg = []
                if isinstance(n, ast.Assign):
                    tg = n.targets
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    tg = [n.target]
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    tg = [n.func.value]
                elif isinstance(n, ast.Delete):
                    tg = n.targets
                elif isinstance(n, ast.Call):
                    for a in list(n.args) + [k.value for k in n.keywords]:
                        pass
                for t in tg:
                    for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                        while isinstance(x, ast.Subscript):
                            x = x.value
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in ("self",):
                            out.add(x.attr)
    _mutfields[key] = out
    return out


def make_self(I, st, cls, havoc_all=False):
    repo = I.repo
    fields = {}
    base = sym("self")
    init = repo.method(cls, "__init__")
    if init is not None:
        tmp = State()
        tmp.frames = [{"__parent__": None}]
        J = Interp(repo, prims=I.prims)
        J.mute = 1
        J.naddr = 10**6
        r = J.new(tmp, mk("obj", cls.qual, NONE, ()))
        J.stack.append((init, init.module))
        args = {}
        for a in init.node.args.args[1:] + init.node.args.kwonlyargs:
            s = sym(a.arg)
            k = ann_kind(repo, init.module, a.annotation)
            if k is not None:
                KINDS.setdefault(s, k)
            args[a.arg] = s
        J.fctx.append({"returns": [], "entry": 0, "gen": False})
        J.inline(tmp, init, [r], args, init.node)
        c = tmp.heap[r.addr]
        fields = dict(c.args[2]) if c.op == "obj" else {}
    mut = mutated_fields(repo, cls)
    for f in list(fields):
        if f in mut or havoc_all:
            s = sym("self." + f)
            KINDS[s] = kind(fields[f])
            if fields[f] is NONE:
                KINDS.pop(s, None)
                KINDS[s] = "unknown"
            fields[f] = s
    if cls.is_dataclass and init is None:
        for k in reversed(repo.mro(cls)):
            for nm, d, ann in k.fields:
                s = sym("self." + nm)
                kd = ann_kind(repo, k.module, ann)
                if kd is not None:
                    KINDS[s] = kd
                fields[nm] = s
    return mk("obj", cls.qual, base, tuple(sorted(fields.items(), key=lambda x: x[0])))


def analyze(repo, f, cls=None, prims=(), no_inline=None, args=None, closure_params=None, kinds=None):
    """Summarise entry point f; cls is the dynamic class of self."""
    I = Interp(repo, prims=prims, no_inline=no_inline)
    st = State()
    st.frames = [{"__parent__": None}]
    names = f.params()
    bound = {}
    S = Summary()
    S.init = {}
    all_args = f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs
    for i, a in enumerate(all_args):
        nm = a.arg
        if args and nm in args:
            bound[nm] = args[nm]
            if isinstance(args[nm], T):
                bound[nm] = I.new(st, args[nm])
                S.init[nm] = args[nm]
            continue
        if i == 0 and f.cls is not None and not f.is_static:
            c = cls or f.cls
            if f.is_class:
                bound[nm] = ClsVal(c)
            else:
                o = make_self(I, st, c)
                bound[nm] = I.new(st, o)
                S.init[nm] = o
            continue
        s = sym(nm)
        k = ann_kind(repo, f.module, a.annotation) or (kinds or {}).get(nm)
        if k is not None:
            KINDS[s] = k
        else:
            KINDS.pop(s, None)
        bound[nm] = I.new(st, s)
        S.init[nm] = s
    if f.node.args.vararg:
        bound[f.node.args.vararg.arg] = I.new(st, sym("*" + f.node.args.vararg.arg))
    if f.node.args.kwarg:
        bound[f.node.args.kwarg.arg] = I.new(st, sym("**" + f.node.args.kwarg.arg))
    refs = dict(bound)
    r = I.run(st, f, f.node, bound, f.module, None, f.node)
    S.always_raises = st.dead == "raise"
    if isinstance(r, Closure) and isinstance(r.node, ast.FunctionDef):
        # a function that makes a function: what the made function does, for every argument
        st.dead = None
        while len(st.frames) <= r.depth:
            st.frames.append(I.left or {"__parent__": None})
        a = r.node.args
        b2 = {}
        for i, x in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
            b2[x.arg] = I.new(st, sym(f"arg{i}"))
        if a.vararg:
            b2[a.vararg.arg] = I.new(st, sym("*args"))
        if a.kwarg:
            b2[a.kwarg.arg] = I.new(st, sym("**kwargs"))
        v = I.run(st, r.func, r.node, b2, r.module, r.depth, r.node)
        deco = tuple(sorted(ast.unparse(d) for d in r.node.decorator_list))
        S.ret = mk("lambda", len(b2), mk("made", deco, I.V(st, v)))
    else:
        S.ret = I.V(st, r)
    S.final = {k: st.heap[v.addr] for k, v in refs.items() if isinstance(v, Ref) and v.addr in st.heap}
    S.events = I.events
    canon_phis(I, S)
    S.opaque = I.opaque
    S.inlined = I.inlined
    S.func = f
    S.ncalls = I.ncalls
    S.namekinds = I.namekinds
    return S


def canon_phis(I, S):
    """Rename loop-carried state by what it computes, not by its variable."""
    S.phidef = {}
    if not I.phidef:
        return
    roots = [S.ret] + list(S.final.values()) + [e.term for e in S.events if isinstance(e.term, T)]
    for e in S.events:
        roots.extend(c[1] for c in e.ctx if len(c) > 1 and isinstance(c[1], T))
    seen = set()
    phis = set()
    for r in roots:
        for x in walk(r, seen):
            if x.op == "phi":
                phis.add(x)
    if not phis:
        return
    todo = set(phis)
    while todo:
        p = todo.pop()
        d = I.phidef.get(p)
        if d is not None:
            more = {y for t in d + (p.args[0],) for y in walk(t) if y.op == "phi"} - phis
            phis |= more
            todo |= more
    def state(p, dom, name):
        r = mk("phi", dom, p.args[1], name, 0)
        if name not in ("?", "@"):
            KINDS.setdefault(r, KINDS.get(p, "unknown"))
        return r

    # refinement: a state is named by what it computes from the states named so far
    cur = {p: mk("phi", p.args[0], p.args[1], "?", 0) for p in phis}
    for _ in range(min(12, len(phis) + 1)):
        nxt, memo = {}, {}
        for p in phis:
            d = I.phidef.get(p)
            dom = subst(p.args[0], cur, memo)
            if d is None:
                nxt[p] = mk("phi", dom, p.args[1], "?", 0)
                continue
            a, b = subst(d[0], cur, memo), subst(d[1], {**cur, p: mk("phi", dom, p.args[1], "@", 0)})
            nxt[p] = state(p, dom, a.dig + b.dig)
        if all(nxt[p] is cur[p] for p in phis):
            break
        cur = nxt
    m = cur
    memo = {}
    for p in phis:
        d = I.phidef.get(p)
        if d is None:
            continue
        own = mk("phi", m[p].args[0], p.args[1], "@", 0)
        S.phidef[m[p]] = (own, subst(d[0], m, memo), subst(d[1], {**m, p: own}))
    f = lambda t: subst(t, m, memo)
    S.ret = f(S.ret)
    S.final = {k: f(v) for k, v in S.final.items()}
    for e in S.events:
        if isinstance(e.term, T):
            e.term = f(e.term)
        e.ctx = tuple(tuple(f(y) if isinstance(y, T) else y for y in c) for c in e.ctx)


# -------------------------------------------------------------------- flatten
class Rec:
    """one write/append record with its context"""
    __slots__ = ("ctx", "path", "action", "value")

    def __init__(self, ctx, path, action, value):
        self.ctx, self.path, self.action, self.value = ctx, path, action, value

    def conds(self):
        return [c[1] for c in self.ctx if c[0] == "when"]

    def cond(self):
        return And(*self.conds())

    def loops(self):
        return [c for c in self.ctx if c[0] == "each"]

    def __repr__(self):
        cs = " ".join(f"[{c[0]} {show(c[1], 4)}]" for c in self.ctx)
        return f"{cs} {show(ent(self.path, self.action, self.value), 8)}"


def flatten(t, ctx=()):
    """records of a log term, in order (base first is not included)"""
    b, es = log_parts(t)
    out = []

    def rec(es, ctx):
        for e in es:
            if e.op == "ent":
                out.append(Rec(ctx, e.args[0], e.args[1], e.args[2]))
            elif e.op == "when":
                rec(e.args[1], ctx + (("when", e.args[0]),))
            else:
                rec(e.args[2], ctx + (("each", e.args[0], e.args[1]),))

    rec(es, ctx)
    return out
