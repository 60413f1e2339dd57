"""Hash-consed value terms for the gated-SSA value-flow analysis.

A term denotes the value an expression has, as a function of the inputs of the
analysed entry point.  Construction goes through the smart constructors below,
which normalise (value numbering): two expressions that compute the same thing
in a different spelling get the same interned term.
"""
import hashlib


class T:
    __slots__ = ("op", "args", "dig", "_fv", "_kids")

    def __repr__(self):
        return show(self)


_table = {}


def _d(x):
    if isinstance(x, T):
        return x.dig
    if isinstance(x, tuple):
        return "(" + ",".join(_d(y) for y in x) + ")"
    return type(x).__name__ + ":" + repr(x)


def _key(x):
    if isinstance(x, T):
        return id(x)
    if isinstance(x, tuple):
        return tuple(_key(y) for y in x)
    return (type(x).__name__, x)


def mk(op, *args):
    k = (op, _key(args))
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.dig = hashlib.sha1((op + _d(args)).encode()).hexdigest()[:16]
        t._fv = None
        t._kids = None
        _table[k] = t
    return t


def C(v):
    try:
        hash(v)
    except TypeError:
        return mk("const", repr(v))
    return mk("const", v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def is_const(t, *vals):
    if t.op != "const":
        return False
    if not vals:
        return True
    return any(type(t.args[0]) is type(v) and t.args[0] == v for v in vals)


def cval(t):
    return t.args[0]


def is_num(t):
    return (
        t.op == "const"
        and isinstance(t.args[0], (int, float))
        and not isinstance(t.args[0], bool)
    )


def kids(t):
    """direct subterms"""
    ks = t._kids
    if ks is None:
        out = []

        def go(x):
            if isinstance(x, T):
                out.append(x)
            elif isinstance(x, tuple):
                for y in x:
                    go(y)

        for a in t.args:
            go(a)
        ks = t._kids = tuple(out)
    return ks


def walk(t, seen=None):
    """All distinct subterms of t."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        stack.extend(kids(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def has(t, sub):
    return any(x is sub for x in walk(t))


def syms(t):
    return {x for x in walk(t) if x.op == "sym"}


def opaque_in(t):
    return [x for x in walk(t) if x.op == "opaque"]


# --------------------------------------------------------------- booleans
BOOL_OPS = {"and", "or", "not", "lt", "eq", "in", "truth", "isinst"}
BOOL_CALLS = {
    "m.any", "m.all", "isinstance", "np.isclose", "np.isin", "hasattr",
    "m.exists", "m.is_file", "m.is_dir", "callable", "m.startswith",
    "m.endswith", "os.path.isfile", "os.path.exists", "issubclass", "bool",
    "m.isin",
}


def is_bool(t):
    if t.op in BOOL_OPS:
        return True
    if t.op == "const":
        return isinstance(t.args[0], bool)
    if t.op == "call":
        return t.args[0] in BOOL_CALLS
    if t.op == "ite":
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return False


def Not(a):
    if a.op == "const" and isinstance(a.args[0], bool):
        return C(not a.args[0])
    if a.op == "not":
        return a.args[0]
    if a.op == "and":
        return Or(*[Not(x) for x in a.args[0]])
    if a.op == "or":
        return And(*[Not(x) for x in a.args[0]])
    if a.op == "ite" and is_bool(a):
        return Ite(a.args[0], Not(a.args[1]), Not(a.args[2]))
    return mk("not", a)


def _nary(op, xs, unit, zero):
    out = {}
    for x in xs:
        if x.op == op:
            for y in x.args[0]:
                out[id(y)] = y
        elif x is unit:
            continue
        elif x is zero:
            return zero
        else:
            out[id(x)] = x
    vals = list(out.values())
    for v in vals:
        n = v.args[0] if v.op == "not" else mk("not", v)
        if id(n) in out:
            return zero
    if op == "and":
        # a file or directory exists
        there = {x.args[1][0] for x in vals if x.op == "call" and x.args[0] in ("m.is_file", "m.is_dir") and x.args[1]}
        if there:
            vals = [x for x in vals if not (x.op == "call" and x.args[0] == "m.exists" and x.args[1] and x.args[1][0] in there)]
    # absorption: x & (x | y) = x
    dual = "or" if op == "and" else "and"
    ids = {id(v) for v in vals}
    vals = [
        v for v in vals
        if not (v.op == dual and any(id(y) in ids for y in v.args[0]))
    ]
    if not vals:
        return unit
    if len(vals) == 1:
        return vals[0]
    vals.sort(key=lambda t: t.dig)
    return mk(op, tuple(vals))


def And(*xs):
    return _nary("and", xs, TRUE, FALSE)


def Or(*xs):
    return _nary("or", xs, FALSE, TRUE)


NONNEG_CALLS = {"len", "m.sum_bool"}


def is_len(t):
    """Terms known to be non-negative integers (sizes and counts)."""
    return t.op == "len" or (
        t.op == "attr" and t.args[1] in ("num_rows", "num_columns")
    ) or (t.op == "call" and t.args[0] in ("m.count_rows", "m.count_tables"))


def bool_sum(t):
    """number of true elements -> whether there is one"""
    if t.op == "call" and t.args[0] == "m.sum" and t.args[1] and is_bool(t.args[1][0]):
        return mk("call", "m.any", t.args[1], t.args[2])
    if t.op == "sum" and is_bool(t.args[2]):
        return mk("exists", t.args[0], t.args[1], t.args[2])
    return None


def Lt(a, b):
    if is_num(a) and 0 <= cval(a) < 1:
        r = bool_sum(b)
        if r is not None:
            return r
    if is_num(b) and 0 < cval(b) <= 1:
        r = bool_sum(a)
        if r is not None:
            return Not(r)
    if is_num(a) and is_num(b):
        return C(cval(a) < cval(b))
    if a is b:
        return FALSE
    # sizes: n < 1  ==  not 0 < n ; n < 0 == False
    if is_len(a) and is_num(b):
        if cval(b) <= 0:
            return FALSE
        if cval(b) <= 1:
            return Not(Lt(C(0), a))
    if is_len(b) and is_num(a):
        if cval(a) < 0:
            return TRUE
        if cval(a) < 1:
            return mk("lt", C(0), b)
    return mk("lt", a, b)


def Eq(a, b):
    if a is b:
        return TRUE
    if a.op == "const" and b.op == "const":
        try:
            return C(bool(a.args[0] == b.args[0]))
        except Exception:
            pass
    for x, y in ((a, b), (b, a)):
        if is_num(y) and cval(y) == 0:
            r = bool_sum(x)
            if r is not None:
                return Not(r)
        if y is NONE and x.op == "ite" and x.args[0].op == "in" and x.args[2] is NONE and x.args[1].op == "index" and x.args[1].args[0] is x.args[0].args[1]:
            # d.get(k) is None
            return Not(x.args[0])
        if is_len(x) and is_num(y) and cval(y) == 0:
            return Not(Lt(C(0), x))
        if y is TRUE and is_bool(x):
            return x
        if y is FALSE and is_bool(x):
            return Not(x)
        if y is NONE and x.op == "call" and x.args[0] in ("re.search", "re.match", "re.fullmatch"):
            # a match is never false
            return Not(mk("truth", x))
        if y is NONE and x.op in (
            "log", "tuple", "fstr", "add", "mul", "obj", "lt", "eq", "not",
            "and", "or", "len",
        ):
            return FALSE
        if y is NONE and x.op == "ite":
            return Ite(x.args[0], Eq(x.args[1], NONE), Eq(x.args[2], NONE))
    if b.dig < a.dig:
        a, b = b, a
    return mk("eq", a, b)


def Ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return Ite(c.args[0], b, a)
    if a.op == "empty" and c.op in ("and", "truth"):
        # emptying what is empty
        cs = c.args[0] if c.op == "and" else (c,)
        rest = [x for x in cs if not (x.op == "truth" and x.args[0] is b)]
        if len(rest) < len(cs):
            return Ite(And(*rest), a, b)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return Not(c)
    if a.op == "len" and is_num(b) and cval(b) == 0 and c.op == "lt" and c.args[1] is a and is_num(c.args[0]) and cval(c.args[0]) == 0:
        return a
    if is_bool(a) and is_bool(b):
        return Or(And(c, a), And(Not(c), b))
    # a sum over an empty sequence is zero: the guard adds nothing
    d = None
    if c.op == "lt" and is_const(c.args[0], 0) and c.args[1].op == "len":
        d = c.args[1].args[0]
    elif c.op == "truth":
        d = c.args[0]
    if d is not None and a.op in ("add", "sum"):
        ps = a.args[0] if a.op == "add" else (a,)
        keep = [p for p in ps if not (p.op == "sum" and p.args[0].op == "dom" and p.args[0].args[0] is mk("len", d))]
        if len(keep) < len(ps) and Add(*keep) is b:
            return a
    # nested with same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", c, a, b)


# --------------------------------------------------------------- arithmetic
def _coef(t):
    """t as (coefficient, base)"""
    if is_num(t):
        return cval(t), None
    if t.op == "mul" and is_num(t.args[0][0]):
        rest = t.args[0][1:]
        return cval(t.args[0][0]), (rest[0] if len(rest) == 1 else mk("mul", rest))
    return 1, t


def Add(*xs):
    acc = {}
    const = 0
    order = []
    for x in xs:
        parts = x.args[0] if x.op == "add" else (x,)
        for p in parts:
            c, b = _coef(p)
            if b is None:
                const = const + c
            else:
                if id(b) not in acc:
                    acc[id(b)] = [0, b]
                    order.append(id(b))
                acc[id(b)][0] += c
    out = []
    for k in order:
        c, b = acc[k]
        if c == 0:
            continue
        out.append(b if c == 1 else Mul(C(c), b))
    out.sort(key=lambda t: t.dig)
    if const != 0 or not out:
        out = [C(const)] + out
    if len(out) == 1:
        return out[0]
    return mk("add", tuple(out))


def Mul(*xs):
    const = 1
    out = []
    for x in xs:
        parts = x.args[0] if x.op == "mul" else (x,)
        for p in parts:
            if is_num(p):
                const = const * cval(p)
            else:
                out.append(p)
    if const == 0 and out and all(True for _ in out):
        # keep 0*x as constant zero (arrays lose shape, acceptable)
        return C(0)
    out.sort(key=lambda t: t.dig)
    if not out:
        return C(const)
    if const == 1:
        return out[0] if len(out) == 1 else mk("mul", tuple(out))
    if len(out) == 1 and out[0].op == "add":
        return Add(*[Mul(C(const), y) for y in out[0].args[0]])
    return mk("mul", (C(const),) + tuple(out))


def Neg(a):
    return Mul(C(-1), a)


def Sub(a, b):
    return Add(a, Neg(b))


def Div(a, b):
    if is_num(b) and cval(b) != 0:
        if is_num(a):
            return C(cval(a) / cval(b))
        if cval(b) == 1:
            return a
    return mk("div", a, b)


# --------------------------------------------------------------- misc
def Len(x):
    if x.op == "tuple":
        return C(len(x.args[0]))
    if x.op == "log" and x.args[0].op == "empty" and all(
        e.op == "ent" and e.args[1] == "append" and not e.args[0]
        for e in x.args[1]
    ):
        return C(len(x.args[1]))
    if x.op == "const" and isinstance(x.args[0], (str, tuple, list)):
        return C(len(x.args[0]))
    if x.op == "call" and x.args[0] in ("list", "tuple", "iter", "np.array", "np.asarray", "m.copy", "m.astype", "m.keys", "m.items", "m.values", "m.tolist", "enumerate") and x.args[1]:
        return Len(x.args[1][0])
    if x.op == "index" and x.args[1].op == "tuple" and x.args[1].args[0] and x.args[1].args[0][0].op == "slice" and all(z is NONE for z in x.args[1].args[0][0].args):
        return Len(x.args[0])
    if x.op == "call" and x.args[0] == "np.column_stack" and x.args[1]:
        z = x.args[1][0]
        z = first_of(z)
        if z is not None:
            return Len(z)
    if x.op == "call" and x.args[0] == "m.to_numpy" and x.args[1] and x.args[1][0].op == "index":
        # a column has as many values as its table has rows
        z = x.args[1][0]
        if z.args[1].op == "const" and isinstance(z.args[1].args[0], str):
            return Len(z.args[0])
    if x.op == "log" and x.args[0].op == "empty" and x.args[0].args[0] == "list" and len(x.args[1]) == 1 and x.args[1][0].op == "each":
        # a filtered list has as many elements as its test is true
        dom, iv, inner = x.args[1][0].args
        if len(inner) == 1 and inner[0].op == "when" and len(inner[0].args[1]) == 1:
            e = inner[0].args[1][0]
            if e.op == "ent" and e.args[1] == "append" and not e.args[0]:
                return mk("sum", dom, iv, inner[0].args[0])
    return mk("len", x)


def first_of(x):
    """the first element of a written-out list or tuple"""
    if x.op == "tuple" and x.args[0]:
        return x.args[0][0]
    if x.op == "log" and x.args[0].op == "empty" and x.args[1] and all(e.op == "ent" and e.args[1] == "append" and not e.args[0] for e in x.args[1]):
        return x.args[1][0].args[2]
    return None


def tup(*xs):
    return mk("tuple", tuple(xs))


def call(fname, args=(), kwargs=()):
    return mk("call", fname, tuple(args), tuple(sorted(kwargs, key=lambda k: k[0])))


def kwarg(t, name, default=None):
    for k, v in t.args[2]:
        if k == name:
            return v
    return default


def sym(name):
    return mk("sym", name)


# --------------------------------------------------------------- logs
def empty(kind):
    return mk("empty", kind)


def log(base, entries):
    entries = tuple(entries)
    if not entries:
        return base
    if base.op == "log":
        return mk("log", base.args[0], base.args[1] + entries)
    return mk("log", base, entries)


def ent(path, action, value):
    return mk("ent", tuple(path), action, value)


def when(c, entries):
    entries = tuple(entries)
    if not entries or c is FALSE:
        return ()
    if c is TRUE:
        return entries
    if len(entries) == 1 and entries[0].op == "when":
        return when(And(c, entries[0].args[0]), entries[0].args[1])
    if all(e.op == "ent" and e.args[1] == "popkey" for e in entries) and len({e.args[2] for e in entries}) == 1:
        # removing a key where it is there: nothing else to do
        k = entries[0].args[2]
        cs = c.args[0] if c.op == "and" else (c,)
        rest = [x for x in cs if not (x.op == "in" and x.args[0] is k)]
        if len(rest) < len(cs):
            return when(And(*rest), entries)
    if all(e.op == "each" and e.args[0].op == "dom" for e in entries):
        # a loop over nothing does nothing
        cs = c.args[0] if c.op == "and" else (c,)
        some = lambda x, d: x.op == "truth" and d is mk("len", x.args[0]) or x.op == "lt" and is_num(x.args[0]) and cval(x.args[0]) == 0 and x.args[1] is d
        rest = [x for x in cs if not all(some(x, e.args[0].args[0]) for e in entries)]
        if len(rest) < len(cs):
            return when(And(*rest), entries)
    return (mk("when", c, entries),)


def each(dom, iv, entries):
    entries = tuple(entries)
    if not entries:
        return ()
    return (mk("each", dom, iv, entries),)


def log_parts(t):
    """(base, entries) of any term"""
    if t.op == "log":
        return t.args[0], t.args[1]
    return t, ()


# --------------------------------------------------------------- printing
def show(t, depth=12):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return repr(t)
    if depth <= 0:
        return "..."
    d = depth - 1
    o, a = t.op, t.args
    s = lambda x: show(x, d)
    if o == "const":
        return repr(a[0])
    if o == "sym":
        return a[0]
    if o == "and":
        return "(" + " & ".join(s(x) for x in a[0]) + ")"
    if o == "or":
        return "(" + " | ".join(s(x) for x in a[0]) + ")"
    if o == "not":
        return "~" + s(a[0])
    if o == "lt":
        return f"({s(a[0])} < {s(a[1])})"
    if o == "eq":
        return f"({s(a[0])} == {s(a[1])})"
    if o == "in":
        return f"({s(a[0])} in {s(a[1])})"
    if o == "add":
        return "(" + " + ".join(s(x) for x in a[0]) + ")"
    if o == "mul":
        return "(" + "*".join(s(x) for x in a[0]) + ")"
    if o == "div":
        return f"({s(a[0])} / {s(a[1])})"
    if o == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if o == "index":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "call":
        return f"{a[0]}({', '.join([s(x) for x in a[1]] + [k + '=' + s(v) for k, v in a[2]])})"
    if o == "tuple":
        return "(" + ", ".join(s(x) for x in a[0]) + ",)"
    if o == "len":
        return f"len({s(a[0])})"
    if o == "iv":
        return f"i<{s(a[0])}>" + ("'" * a[1])
    if o == "slice":
        return ":".join("" if x is NONE else s(x) for x in a)
    if o == "empty":
        return {"list": "[]", "dict": "{}", "set": "set()"}.get(a[0], a[0])
    if o == "log":
        return s(a[0]) + "<<" + "; ".join(s(x) for x in a[1]) + ">>"
    if o == "ent":
        p = "".join(
            ("." + x.args[0]) if x.op == "fld" else "[" + s(x) + "]" for x in a[0]
        )
        return f"{p}:{a[1]} {s(a[2])}"
    if o == "when":
        return f"when {s(a[0])} {{{'; '.join(s(x) for x in a[1])}}}"
    if o == "each":
        return f"for {s(a[0])} {{{'; '.join(s(x) for x in a[2])}}}"
    if o == "fstr":
        return "f'" + "".join(
            str(x.args[0]) if x.op == "const" else "{" + s(x) + "}" for x in a[0]
        ) + "'"
    return o + "(" + ", ".join(show(x, d) if isinstance(x, (T, tuple)) else repr(x) for x in a) + ")"
