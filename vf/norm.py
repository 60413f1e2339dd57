"""Normalising constructors for indexing and calls (see ir.py for the rest)."""
from .ir import *
from . import ir

RET_KINDS = {}  # qualified function -> kind its annotation gives the result
KINDS = {}  # T(sym/phi) -> kind: array|list|dict|set|scalar|("inst", qual)

UNIONS = set()  # types that annotations of the current function offer beside others
FULL = mk("slice", NONE, NONE, NONE)

ARRAY_CALLS_PREFIX = ("np.",)
SCALAR_CALLS = {
    "int", "float", "bool", "str", "len", "isinstance", "np.uint8", "round",
    "m.item", "abs", "repr", "np.float64", "np.int64", "np.uint64", "id",
    "m.as_py", "m.count_rows", "m.count_tables",
}
LIST_CALLS = {"list", "sorted", "m.tolist", "m.to_pylist", "m.split", "glob.glob", "os.listdir", "m.get_dataset_files"}
DICT_CALLS = {"dict", "collections.defaultdict", "json.load", "json.loads"}
ARRAY_CALLS = {"m.astype", "m.to_numpy", "m.reshape", "m.flatten", "m.diagonal", "m.copy", "m.ravel", "safediv"}


def kind(t):
    k = KINDS.get(t)
    if k is not None:
        return k
    o = t.op
    if o == "const":
        return "scalar"
    if o == "empty":
        return t.args[0]
    if o == "log":
        return kind(t.args[0])
    if o == "tuple":
        return "tuple"
    if o in ("iv", "len", "fstr", "enum"):
        return "scalar"
    if o == "obj":
        return "obj"
    if o == "call":
        f = t.args[0]
        if f in SCALAR_CALLS:
            return "scalar"
        if f in LIST_CALLS:
            return "list"
        if f in DICT_CALLS:
            return "dict"
        if f in ARRAY_CALLS or f.startswith("np."):
            return "array"
        if f in ("m.sum", "m.any", "m.all", "m.mean", "m.max", "m.min"):
            if kwarg(t, "axis") is not None:
                return "array"
            return "scalar" if f != "m.mean" else "scalar"
        if f in ("set", "frozenset"):
            return "set"
        return RET_KINDS.get(f, "unknown")
    if o in ("and", "or", "add", "mul"):
        ks = {kind(x) for x in t.args[0]}
        return _join_el(ks)
    if o in ("not",):
        return kind(t.args[0])
    if o in ("lt", "eq", "div"):
        return _join_el({kind(t.args[0]), kind(t.args[1])})
    if o == "in":
        return "scalar"
    if o == "ite":
        a, b = kind(t.args[1]), kind(t.args[2])
        if t.args[1] is NONE:
            return b
        if t.args[2] is NONE:
            return a
        return a if a == b else "unknown"
    if o == "index":
        b = kind(t.args[0])
        if b == "array":
            k = t.args[1]
            keys = k.args[0] if k.op == "tuple" else (k,)
            for x in keys:
                if x.op == "slice" or kind(x) in ("array", "tuple", "list"):
                    return "array"
            if t.args[0].op == "index" or t.args[0].op == "sym":
                return "unknown"
        return "unknown"
    if o == "attr":
        if t.args[1] in ("size", "num_rows", "num_columns", "ndim"):
            return "scalar"
        if t.args[1] == "shape":
            return "tuple"
        return "unknown"
    if o in ("sum", "fold", "last"):
        return kind(t.args[2]) if o != "fold" else kind(t.args[3])
    if o == "setof":
        return "set"
    return "unknown"


def _join_el(ks):
    if "array" in ks:
        return "array"
    if "list" in ks:
        return "list"
    if "set" in ks:
        return "set"
    if ks <= {"scalar"}:
        return "scalar"
    return "unknown"


def is_array_key(k):
    return kind(k) in ("array", "list") or (k.op == "tuple")


def is_scalar_key(k):
    if k.op == "slice" or k.op == "tuple":
        return False
    return kind(k) == "scalar" or k.op in ("iv", "const", "add")


def definitely_ne(a, b):
    if a is b:
        return False
    if a.op == "const" and b.op == "const":
        return a.args[0] != b.args[0]
    if a.op == "enum" and b.op == "enum":
        return a is not b
    if a.op == "fld" and b.op == "fld":
        return a is not b
    if a.op == "fld" or b.op == "fld":
        return True
    if a.op == "tuple" and b.op == "tuple" and len(a.args[0]) == len(b.args[0]):
        return any(definitely_ne(x, y) for x, y in zip(a.args[0], b.args[0]))
    d = Sub(a, b)
    return is_num(d) and cval(d) != 0


def touches(e, key):
    """may entry e write something under key?"""
    if e.op == "ent":
        if not e.args[0]:
            return True
        return not definitely_ne(e.args[0][0], key)
    return any(touches(x, key) for x in (e.args[1] if e.op == "when" else e.args[2]))


def log_lookup(base, entries, key):
    """Value at key in log(base, entries), or None when undecidable."""
    es = list(entries)
    while es:
        e = es[-1]
        if e.op == "ent" and e.args[1] in ("append", "extend") and not e.args[0]:
            break
        if not touches(e, key):
            es.pop()
            continue
        if e.op == "ent" and e.args[0] and e.args[0][0] is key:
            if len(e.args[0]) == 1 and e.args[1] == "set":
                return e.args[2]
            prev = log_lookup(base, es[:-1], key)
            if prev is None:
                return None
            return apply_write(prev, e.args[0][1:], e.args[1], e.args[2])
        if e.op == "when":
            a = log_lookup(base, es[:-1] + list(e.args[1]), key)
            b = log_lookup(base, es[:-1], key)
            if a is None or b is None:
                return None
            return Ite(e.args[0], a, b)
        return None
    if not es:
        if base.op == "empty":
            return empty_default(base)
        return Index(base, key)
    # pure append list
    if base.op == "empty" and all(
        x.op == "ent" and x.args[1] == "append" and not x.args[0] for x in es
    ) and key.op == "const" and isinstance(key.args[0], int):
        i = key.args[0]
        if -len(es) <= i < len(es):
            return es[i].args[2]
    # list comprehension over a domain, indexed by position
    if base.op == "empty" and len(es) == 1 and es[0].op == "each":
        dom, iv, inner = es[0].args
        if len(inner) == 1 and inner[0].op == "ent" and inner[0].args[1] == "append" and key.op == "iv":
            if key is iv:
                return inner[0].args[2]
    return None


def empty_default(base):
    if len(base.args) > 1:
        return base.args[1]
    return None


def is_index(t):
    return t.op == "const" and type(t.args[0]) is int and t.args[0] >= 0


def Index(b, k):
    if k.op == "call" and k.args[0] in ("np.ix_",):
        m, cols = k.args[1][0], k.args[1][1]
        return Index(Index(b, tup(FULL, cols)), m)
    if k.op == "call" and k.args[0] in ("list", "tuple") and len(k.args[1]) == 1:
        return Index(b, k.args[1][0])
    if b.op == "tuple":
        if k.op == "const" and isinstance(k.args[0], int):
            n = len(b.args[0])
            if -n <= k.args[0] < n:
                return b.args[0][k.args[0]]
    if b.op == "log":
        r = log_lookup(b.args[0], b.args[1], k)
        if r is not None:
            return r
        if k.op == "tuple" and len(k.args[0]) == 2 and k.args[0][0] is FULL and is_index(k.args[0][1]):
            # a column: what was written to other columns of the same array is not in it
            es = tuple(e for e in b.args[1] if not (e.op == "ent" and e.args[1] == "set" and len(e.args[0]) == 1 and e.args[0][0].op == "tuple" and len(e.args[0][0].args[0]) == 2
                                                   and is_index(e.args[0][0].args[0][1]) and e.args[0][0].args[0][1] is not k.args[0][1]))
            if len(es) < len(b.args[1]):
                return Index(mk("log", b.args[0], es) if es else b.args[0], k)
    if b.op == "ite":
        # push into branches when both simplify
        x, y = Index(b.args[1], k), Index(b.args[2], k)
        if x.op != "index" and y.op != "index":
            return Ite(b.args[0], x, y)
    if b.op == "attr" and b.args[1] == "shape" and is_const(k, 0):
        return Len(b.args[0])
    if b.op == "call":
        f = b.args[0]
        if f == "m.astype" and not (k.op == "const" and isinstance(k.args[0], str)):
            return Call("m.astype", (Index(b.args[1][0], k),) + b.args[1][1:], b.args[2])
        if f in ("np.array", "np.asarray") and is_scalar_key(k) and b.args[1]:
            inner = b.args[1][0]
            if inner.op in ("sym", "attr", "log"):
                return Index(inner, k)
        if f in ("list", "tuple", "iter") and len(b.args[1]) == 1:
            return Index(b.args[1][0], k)
        if f == "np.column_stack" and k.op == "tuple" and len(k.args[0]) == 2 and k.args[0][0] is FULL:
            cols = _static_list(b.args[1][0])
            sel = k.args[0][1]
            if cols is not None:
                if sel.op == "const" and isinstance(sel.args[0], int) and -len(cols) <= sel.args[0] < len(cols):
                    return cols[sel.args[0]]
                idx = _static_ints(sel, len(cols))
                if idx is not None:
                    return Call("np.column_stack", (mklist([cols[i] for i in idx]),), ())
    # row mask + column
    if k.op == "tuple" and len(k.args[0]) == 2:
        m, c = k.args[0]
        if m is not FULL and m.op != "slice" and kind(m) == "array" and (is_scalar_key(c) or _static_ints(c, 99) is not None):
            if c.op in ("const", "iv") or c.op == "tuple":
                return Index(Index(b, tup(FULL, c)), m)
        if m is FULL and b.op == "index":
            bk = b.args[1]
            # x[M][:, c] -> x[:, c][M]
            if bk.op not in ("tuple", "slice", "const", "iv") and (kind(bk) == "array" or kind(bk) == "unknown" and RANKS.get(b.args[0]) == 2) and c is not FULL:
                return Index(Index(b.args[0], k), bk)
    # x[:, cols][:, j]  /  basic-index composition
    if b.op == "index" and kind(b.args[0]) in ("array", "unknown") and b.args[0].op != "log":
        r = _compose(b.args[1], k)
        if r is not None and kind(b.args[0]) == "array":
            return Index(b.args[0], r)
        if r is not None and b.args[1].op == "tuple":
            return Index(b.args[0], r)
    if b.op == "log" and False:
        pass
    return mk("index", b, k)


def _static_list(t):
    if t.op == "tuple":
        return list(t.args[0])
    if t.op == "log" and t.args[0].op == "empty":
        out = []
        for e in t.args[1]:
            if e.op == "ent" and e.args[1] == "append" and not e.args[0]:
                out.append(e.args[2])
            else:
                return None
        return out
    if t.op == "empty" and t.args[0] == "list":
        return []
    return None


def _static_ints(t, n):
    xs = _static_list(t)
    if xs is not None and all(x.op == "const" and type(x.args[0]) is int for x in xs):
        v = [x.args[0] for x in xs]
        if all(-n <= i < n for i in v):
            return v
    if t.op == "slice":
        vals = []
        for a in t.args:
            if a is NONE:
                vals.append(None)
            elif a.op == "const" and isinstance(a.args[0], int):
                vals.append(a.args[0])
            else:
                return None
        if n == 99:
            if vals[1] is None or vals[1] < 0 or (vals[0] or 0) < 0:
                return None
            return list(range(*slice(*vals).indices(vals[1])))
        return list(range(*slice(*vals).indices(n)))
    return None


def mklist(xs):
    return log(empty("list"), [ent((), "append", x) for x in xs])


def _compose(k1, k2):
    """Compose two basic indexing keys, or None."""
    a = list(k1.args[0]) if k1.op == "tuple" else [k1]
    b = list(k2.args[0]) if k2.op == "tuple" else [k2]
    if any(x.op == "slice" and x is not FULL and _static_ints(x, 99) is None for x in a):
        return None
    out = []
    bi = 0
    for x in a:
        if x is FULL:
            if bi < len(b):
                y = b[bi]
                bi += 1
                if y is not FULL and not is_scalar_key(y) and y.op not in ("tuple",):
                    return None
                if y.op == "tuple" and len(a) > 2:
                    return None
                out.append(y)
            else:
                out.append(x)
        elif is_scalar_key(x):
            out.append(x)
        else:
            idx = _static_ints(x, 99)
            if idx is None:
                return None
            if bi >= len(b):
                out.append(x)
                continue
            y = b[bi]
            bi += 1
            if y is FULL:
                out.append(x)
            elif y.op == "const" and type(y.args[0]) is int and -len(idx) <= y.args[0] < len(idx):
                out.append(C(idx[y.args[0]]))
            else:
                sub = _static_ints(y, len(idx))
                if sub is None:
                    return None
                out.append(tup(*[C(idx[i]) for i in sub]))
    out.extend(b[bi:])
    while len(out) > 1 and out[-1] is FULL and False:
        out.pop()
    if len(out) == 1:
        return out[0]
    return tup(*out)


def same_names(t, i, c):
    """set_column at the place of the column of that name"""
    return i.op == "call" and i.args[0] in ("m.index", "m.get_field_index") and len(i.args[1]) == 2 and i.args[1][1] is c


def Attr(b, name):
    if name == "num_rows" and b.op not in ("obj", "self") and not (b.op == "sym" and b.args[0] == "self"):
        return Len(b)
    if name == "column_names" and not isinstance(KINDS.get(b), tuple):
        return Attr(Attr(b, "schema"), "names")
    if name == "names" and b.op == "attr" and b.args[1] == "schema":
        t = b.args[0]
        if t.op == "call" and t.args[0] == "m.set_column" and len(t.args[1]) == 4 and same_names(*t.args[1][:3]):
            return Attr(Attr(t.args[1][0], "schema"), "names")
    if b.op == "ite":
        x, y = Attr(b.args[1], name), Attr(b.args[2], name)
        if x.op != "attr" and y.op != "attr":
            return Ite(b.args[0], x, y)
    if b.op == "obj":
        for k, v in b.args[2]:
            if k == name:
                return v
        if b.args[1] is NONE:
            return mk("attr", b, name)
        return mk("attr", b.args[1], name)
    if b.op == "log":
        r = log_lookup(b.args[0], b.args[1], mk("fld", name))
        if r is not None:
            return r
        if not any(touches(e, mk("fld", name)) for e in b.args[1]):
            return Attr(b.args[0], name)
    if b.op == "fldbase":
        return mk("attr", b.args[0], name)
    return mk("attr", b, name)


def key_read(b, k):
    return Attr(b, k.args[0]) if k.op == "fld" else Index(b, k)


_orig_Index = Index


UNIQUE_PARTS = ("return_index", "return_inverse", "return_counts")


def strip_full(k):
    """x[i, :, :] -> x[i]"""
    if k.op == "tuple" and len(k.args[0]) > 1 and k.args[0][-1] is FULL and NONE not in k.args[0]:
        ks = list(k.args[0])
        while len(ks) > 1 and ks[-1] is FULL:
            ks.pop()
        return ks[0] if len(ks) == 1 else tup(*ks)
    return k


RANKS = {}  # array term -> number of axes its subscripts show
DOTS = C(...)


def rank(t):
    if t.op == "log":
        return rank(t.args[0])
    if t.op == "call":
        if t.args[0] in ("np.zeros", "np.ones", "np.empty", "np.full") and t.args[1] and t.args[1][0].op == "tuple":
            return len(t.args[1][0].args[0])
        if t.args[0] in ("np.zeros_like", "np.ones_like", "np.empty_like", "m.astype", "m.copy") and t.args[1]:
            return rank(t.args[1][0])
    return RANKS.get(t)


def canon_key(b, k):
    """x[..., i] -> x[:, :, i] where the number of axes is known"""
    if k.op != "tuple" or NONE in k.args[0]:
        return k
    ks = k.args[0]
    if any(x.op == "log" for x in ks):
        # a literal list of column numbers
        ks = tuple(tup(*_static_list(x)) if x.op == "log" and _static_ints(x, 99) is not None else x for x in ks)
        k = tup(*ks)
    if DOTS not in ks:
        if len(ks) > 1:
            u = log_parts(b)[0] if b.op == "log" else b
            if len(ks) > RANKS.get(u, 0):
                RANKS[u] = len(ks)
        return k
    n = rank(b)
    if n is None or n < len(ks) - 1 or any(is_bool(x) for x in ks):
        return k
    i = ks.index(DOTS)
    return tup(*(ks[:i] + (FULL,) * (n - len(ks) + 1) + ks[i + 1:]))


def Index(b, k):  # noqa: F811
    if k.op == "fld":
        return Attr(b, k.args[0])
    k = strip_full(canon_key(b, k))
    if b.op == "call" and b.args[0] == "np.unique" and b.args[2]:
        # the parts of a unique: positions are fixed by the flags given
        flags = [f for f in UNIQUE_PARTS if kwarg(b, f) is not None]
        if flags and all(kwarg(b, f) is TRUE for f in flags) and k.op == "const" and type(k.args[0]) is int and 0 <= k.args[0] <= len(flags):
            rest = tuple((n, v) for n, v in b.args[2] if n not in UNIQUE_PARTS)
            if k.args[0] == 0:
                return mk("call", "np.unique", b.args[1], rest)
            f = flags[k.args[0] - 1]
            if len(flags) > 1:
                return Index(mk("call", "np.unique", b.args[1], tuple(sorted(rest + ((f, TRUE),), key=lambda z: z[0]))), C(1))
    return _orig_Index(b, k)


INPLACE = {
    "add": Add,
    "sub": Sub,
    "mul": Mul,
    "div": Div,
    "and": And,
    "or": Or,
    "xor": lambda a, b: mk("xor", a, b),
    "lshift": lambda a, b: mk("lshift", a, b),
    "rshift": lambda a, b: mk("rshift", a, b),
    "floordiv": lambda a, b: mk("floordiv", a, b),
    "mod": lambda a, b: mk("mod", a, b),
    "pow": lambda a, b: mk("pow", a, b),
}


def apply_write(content, path, action, value):
    """Content of an object after a write of `value` with `action` at `path`."""
    if not path:
        if action == "set":
            return value
        if action in INPLACE:
            if action == "add" and kind(content) == "list":
                return log(content, (ent((), "extend", value),))
            return INPLACE[action](content, value)
        return log(content, (ent((), action, value),))
    k = path[0]
    if content.op == "obj" and k.op == "fld":
        cur = Attr(content, k.args[0])
        new = apply_write(cur, path[1:], action, value)
        fields = dict(content.args[2])
        fields[k.args[0]] = new
        return mk("obj", content.args[0], content.args[1], tuple(sorted(fields.items(), key=lambda x: x[0])))
    # plain aug-assign on a known cell becomes a set when the old value is known
    if action in INPLACE and len(path) == 1 and content.op == "log":
        old = log_lookup(content.args[0], content.args[1], k)
        if old is not None and old.op not in ("index", "attr"):
            return log(content, (ent(path, "set", INPLACE[action](old, value)),))
    # x[k] = x[k] + v  is  x[k] += v
    if action == "set":
        cell = content
        for z in path:
            cell = key_read(cell, z)
        r = _as_inplace(cell, value)
        if r is not None:
            return log(content, (ent(path, r[0], r[1]),))
    return log(content, (ent(path, action, value),))


def _as_inplace(cell, value):
    if cell.op not in ("index", "attr"):
        return None
    if value.op == "add" and any(x is cell for x in value.args[0]):
        return "add", Sub(value, cell)
    if value.op in ("and", "or") and any(x is cell for x in value.args[0]):
        rest = [x for x in value.args[0] if x is not cell]
        return value.op, (And if value.op == "and" else Or)(*rest)
    return None


# ------------------------------------------------------------------ calls
NP_METHOD = {
    "sum", "any", "all", "mean", "max", "min", "cumsum", "reshape", "astype",
    "copy", "diagonal", "argmax", "argmin", "argsort", "flatten", "ravel",
    "tolist", "nonzero", "prod", "round", "std", "var", "take", "repeat", "clip", "squeeze",
    "transpose", "argpartition",
}
NP_ALIAS = {"amax": "max", "amin": "min", "trapz": "trapezoid", "vstack": "vstack", "absolute": "abs"}

BINOPS = {
    "np.add": Add, "np.subtract": Sub, "np.multiply": Mul,
    "np.true_divide": Div, "np.divide": Div,
    "np.logical_and": And, "np.logical_or": Or,
    "operator.and_": And, "operator.or_": Or,
    "np.less": Lt, "np.greater": lambda a, b: Lt(b, a),
    "np.less_equal": lambda a, b: Not(Lt(b, a)),
    "np.greater_equal": lambda a, b: Not(Lt(a, b)),
    "np.equal": Eq, "np.not_equal": lambda a, b: Not(Eq(a, b)),
}
COMM = {"shapely.intersection", "shapely.union", "np.add", "np.multiply", "np.gcd", "math.isclose", "np.maximum", "np.minimum", "np.isclose", "np.fmax", "np.fmin"}

SIGS = {
    "np.unique": ["ar", "return_index", "return_inverse", "return_counts", "axis"],
    "np.zeros": ["shape", "dtype"],
    "np.ones": ["shape", "dtype"],
    "np.empty": ["shape", "dtype"],
    "np.full": ["shape", "fill_value", "dtype"],
    "np.zeros_like": ["a", "dtype"],
    "np.ones_like": ["a", "dtype"],
    "m.sum": ["a", "axis"], "m.any": ["a", "axis"], "m.all": ["a", "axis"],
    "m.mean": ["a", "axis"], "m.max": ["a", "axis"], "m.min": ["a", "axis"],
    "m.argsort": ["a", "axis"], "m.cumsum": ["a", "axis"],
    "np.array": ["object", "dtype"], "np.asarray": ["object", "dtype"],
    "np.bincount": ["x", "weights", "minlength"],
    "np.isin": ["element", "test_elements", "assume_unique", "invert"],
    "m.astype": ["a", "dtype"],
    "np.stack": ["arrays", "axis"],
    "np.concatenate": ["arrays", "axis"],
    "np.where": ["condition", "x", "y"],
    "np.isclose": ["a", "b", "rtol", "atol"],
    "np.divide": ["x1", "x2", "out"],
}
N_POS = {
    "np.unique": 1, "np.zeros": 1, "np.ones": 1, "np.empty": 1, "np.full": 2,
    "np.zeros_like": 1, "np.ones_like": 1, "m.sum": 1, "m.any": 1, "m.all": 1,
    "m.mean": 1, "m.max": 1, "m.min": 1, "m.argsort": 1, "m.cumsum": 1,
    "np.array": 1, "np.asarray": 1, "np.bincount": 1, "np.isin": 2,
    "m.astype": 2, "np.stack": 1, "np.concatenate": 1, "np.where": 3,
    "np.isclose": 2, "np.divide": 2,
}
DEFAULTS = {
    ("np.unique", "return_index"): FALSE, ("np.unique", "return_counts"): FALSE,
    ("np.unique", "return_inverse"): FALSE, ("np.unique", "axis"): NONE,
    ("np.isin", "assume_unique"): FALSE, ("np.isin", "invert"): FALSE,
    ("m.sum", "axis"): NONE, ("m.any", "axis"): NONE, ("m.all", "axis"): NONE,
    ("m.mean", "axis"): NONE,
}


def canon_args(f, args, kwargs):
    sig = SIGS.get(f)
    if sig is None:
        return args, kwargs
    npos = N_POS[f]
    kw = dict(kwargs)
    pos = list(args)
    for i in range(npos, len(pos)):
        if i < len(sig):
            kw[sig[i]] = pos[i]
    pos = pos[:npos]
    for i in range(len(pos), npos):
        if sig[i] in kw:
            pos.append(kw.pop(sig[i]))
        else:
            break
    kw = {k: v for k, v in kw.items() if DEFAULTS.get((f, k)) is not v}
    return tuple(pos), tuple(kw.items())


def single_each(t):
    """[e for .. in dom if c] as (dom, iv, cond, e) or None"""
    if t.op == "log" and t.args[0].op == "empty" and len(t.args[1]) == 1:
        e = t.args[1][0]
        if e.op == "each" and len(e.args[2]) == 1:
            dom, iv, (x,) = e.args
            c = TRUE
            if x.op == "when" and len(x.args[1]) == 1:
                c = x.args[0]
                x = x.args[1][0]
            if x.op == "ent" and x.args[1] == "append" and not x.args[0]:
                return dom, iv, c, x.args[2]
    return None


def Sum(dom, iv, e):
    if e.op == "const" and e.args[0] == 0:
        return C(0)
    if e.op == "ite" and is_num(e.args[1]) and is_num(e.args[2]):
        if cval(e.args[1]) == 1 and cval(e.args[2]) == 0:
            e = e.args[0]
        elif cval(e.args[1]) == 0 and cval(e.args[2]) == 1:
            e = Not(e.args[0])
    if e.op == "call" and e.args[0] in ("int", "float") and is_bool(e.args[1][0]):
        e = e.args[1][0]
    return mk("sum", dom, iv, e)


WIDEN = {"np.int64", "np.uint64", "np.float64", "int", "float"}


def Call(f, args=(), kwargs=()):
    args = tuple(args)
    kwargs = tuple(kwargs)
    if f.startswith("np."):
        n = f[3:]
        n = NP_ALIAS.get(n, n)
        if n in NP_METHOD:
            f = "m." + n
        else:
            f = "np." + n
    if f in BINOPS and len(args) == 2 and not kwargs:
        return BINOPS[f](*args)
    if f in ("np.logical_not", "np.invert", "np.bitwise_not") and len(args) == 1 and not kwargs:
        return Not(args[0])
    if f == "np.negative" and len(args) == 1:
        return Neg(args[0])
    args, kwargs = canon_args(f, args, kwargs)
    if f in ("m.copy", "copy.copy", "np.copy", "copy.deepcopy", "np.ascontiguousarray") and args:
        return args[0]
    if f == "len" and len(args) == 1:
        return Len(args[0])
    if f == "np.shape" and len(args) == 1:
        return mk("attr", args[0], "shape")
    if f == "np.size" and len(args) == 1:
        return mk("attr", args[0], "size")
    if f == "bool" and len(args) == 1:
        return Truth(args[0])
    if f in ("list", "tuple") and len(args) == 1:
        a = args[0]
        if kind(a) == "list" and f == "list":
            return a
        if a.op == "tuple" and f == "tuple":
            return a
        if a.op == "tuple" and f == "list":
            return mklist(a.args[0])
    if f in ("list",) and not args:
        return empty("list")
    if f == "dict" and not args:
        return log(empty("dict"), [ent((C(k),), "set", v) for k, v in kwargs])
    if f == "dict" and len(args) == 1 and kind(args[0]) == "dict" and not kwargs:
        return args[0]
    if f == "set" and not args:
        return empty("set")
    if f == "set" and len(args) == 1 and args[0].op == "log":
        return mk("setof", args[0])
    if f == "collections.defaultdict" and args:
        a = args[0]
        if a.op == "ext" and a.args[0] in ("list", "dict"):
            return mk("empty", "dict", empty(a.args[0]))
        if a.op == "ext" and a.args[0] in ("int", "float"):
            return mk("empty", "dict", C(0))
    if f in ("pathlib.Path", "Path") and len(args) == 1:
        if args[0].op == "call" and args[0].args[0] == "pathlib.Path":
            return args[0]
        if args[0].op == "div":
            return args[0]
        return mk("call", "pathlib.Path", args, ())
    if f == "os.path.join" and len(args) >= 2:
        r = Call("pathlib.Path", (args[0],))
        for a in args[1:]:
            r = Div(r, a)
        return r
    if f == "m.joinpath" and len(args) >= 2:
        r = args[0]
        for a in args[1:]:
            r = Div(r, a)
        return r
    if f == "shapely.area" and len(args) == 1 and args[0].op == "call" and args[0].args[0] == "shapely.union" and len(args[0].args[1]) == 2 and not args[0].args[2]:
        u, v = args[0].args[1]
        return Add(Call("shapely.area", (u,)), Call("shapely.area", (v,)), Mul(C(-1), Call("shapely.area", (Call("shapely.intersection", (u, v)),))))
    if f == "m.sum" and args and args[0].op == "or" and len(args[0].args[0]) == 2 and not any(is_bool(z) for z in args[0].args[0]):
        # number of elements of a union
        u, v = args[0].args[0]
        return Add(Call(f, (u,) + tuple(args[1:]), kwargs), Call(f, (v,) + tuple(args[1:]), kwargs), Mul(C(-1), Call(f, (And(u, v),) + tuple(args[1:]), kwargs)))
    if f == "m.sum" and len(args) == 1 and not kwargs:
        s = single_each(args[0])
        if s is not None:
            dom, iv, c, e = s
            return Sum(dom, iv, Ite(c, e, C(0)) if c is not TRUE else e)
        xs = _static_list(args[0])
        if xs is not None:
            return Add(*xs) if xs else C(0)
    if f in ("sum",):
        return Call("m.sum", args[:1], ()) if len(args) == 1 else Add(Call("m.sum", args[:1], ()), args[1])
    if f in COMM and len(args) == 2:
        args = tuple(sorted(args, key=lambda t: t.dig))
    if f in ("max", "min", "any", "all") and len(args) == 1 and f in ("any", "all"):
        f = "m." + f
    if f in ("m.any", "m.all") and not kwargs and len(args) == 1:
        s = single_each(args[0])
        if s is not None:
            dom, iv, c, e = s
            e = Truth(e)
            if f == "m.any":
                return mk("exists", dom, iv, And(c, e))
            return Not(mk("exists", dom, iv, And(c, Not(e))))
    if f == "int" and len(args) == 1 and (args[0].op in ("len", "iv") or (is_num(args[0]) and isinstance(cval(args[0]), int))):
        return args[0]
    if f == "float" and len(args) == 1 and is_num(args[0]):
        return C(float(cval(args[0])))
    if f == "m.astype" and len(args) == 2:
        # nested / idempotent casts
        if args[0].op == "call" and args[0].args[0] == "m.astype" and args[0].args[1][1] is args[1]:
            return args[0]
    if f == "m.item" and len(args) == 1:
        return args[0]
    if f in ("np.zeros_like", "np.ones_like") and len(args) == 1 and args[0].op == "call" and args[0].args[0] in ("np.zeros", "np.ones") and set(dict(kwargs)) <= {"dtype"} and set(dict(args[0].args[2])) <= {"dtype"}:
        kw = dict(args[0].args[2])
        kw.update(kwargs)
        return Call(f[:-5], args[0].args[1], tuple(sorted(kw.items())))
    if f == "np.full" and len(args) == 2 and is_num(args[1]):
        if cval(args[1]) in (0, 1) and kwargs:
            return Call("np.zeros" if cval(args[1]) == 0 else "np.ones", (args[0],), kwargs)
        return Mul(args[1], Call("np.ones", (args[0],), kwargs))
    if f == "np.count_nonzero" and args and is_bool(args[0]):
        return Call("m.sum", args, kwargs)
    if f in ("set", "frozenset", "sorted") and len(args) == 1 and args[0].op == "call" and args[0].args[0] == "m.keys":
        return Call(f, args[0].args[1], kwargs)
    if f in ("set", "m.to_numpy", "list", "sorted") and args and args[0].op == "ite" and not kwargs:
        c, x, y = args[0].args
        return Ite(c, Call(f, (x,) + args[1:], ()), Call(f, (y,) + args[1:], ()))
    if f == "set" and len(args) == 1 and args[0].op == "empty":
        return empty("set")
    if f == "np.newaxis":
        return NONE
    if f == "isinstance" and len(args) == 2:
        return mk("isinst", args[0], args[1])
    if f == "m.update" and False:
        pass
    return mk("call", f, args, tuple(sorted(kwargs, key=lambda k: k[0])))


def Get(d, k, default):
    """d.get(k, default)"""
    return mk("ite", mk("in", k, d), Index(d, k), default) if default.op != "ite" else mk("call", "m.get", (d, k, default), ())


def Truth(t):
    if is_bool(t):
        return t
    if t.op == "const":
        return C(bool(t.args[0]))
    if t.op == "ite":
        return Ite(t.args[0], Truth(t.args[1]), Truth(t.args[2]))
    if t.op == "exists":
        return t
    k = kind(t)
    if t.op == "empty":
        return FALSE
    if t.op == "call" and t.args[0] == "re.findall":
        return mk("truth", mk("call", "re.search", t.args[1], t.args[2]))
    if k in ("list", "dict", "set", "tuple"):
        return Lt(C(0), Len(t))
    if is_len(t) or t.op == "len":
        return Lt(C(0), t)
    if t.op == "obj":
        return TRUE
    return mk("truth", t)


ir.BOOL_OPS.add("exists")

_is_len0 = ir.is_len


def is_len(t):
    return _is_len0(t) or (t.op == "attr" and t.args[1] == "size")


ir.is_len = is_len


def subst(t, m, memo=None):
    """Replace terms (by identity) and re-normalise."""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r

    def sx(x):
        if isinstance(x, T):
            return subst(x, m, memo)
        if isinstance(x, tuple):
            return tuple(sx(y) for y in x)
        return x

    a = tuple(sx(x) for x in t.args)
    r = rebuild(t.op, a)
    memo[t] = r
    return r


def rebuild(o, a):
    if o == "and":
        return And(*a[0])
    if o == "or":
        return Or(*a[0])
    if o == "not":
        return Not(a[0])
    if o == "lt":
        return Lt(*a)
    if o == "eq":
        return Eq(*a)
    if o == "ite":
        return Ite(*a)
    if o == "add":
        return Add(*a[0])
    if o == "mul":
        return Mul(*a[0])
    if o == "div":
        return Div(*a)
    if o == "index":
        return Index(*a)
    if o == "attr":
        return Attr(*a)
    if o == "len":
        return Len(a[0])
    if o == "call":
        return Call(a[0], a[1], a[2])
    if o == "log":
        return log(a[0], a[1])
    if o == "truth":
        return Truth(a[0])
    if o == "zip":
        ls = tuple(sorted(set(a[0]), key=lambda x: x.dig))
        return ls[0] if len(ls) == 1 else mk("zip", ls)
    if o == "sum":
        return Sum(*a)
    if o == "when":
        r = when(a[0], a[1])
        return r[0] if len(r) == 1 else mk("when", a[0], a[1])
    return mk(o, *a)
