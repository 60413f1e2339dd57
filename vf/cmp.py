"""Semantic comparison of normalised value-flow terms.

diff(spec, actual) returns the differences between the two terms.  Every
difference is either decisive ("D": two fully interpreted, aligned constructs
that cannot have the same value on all inputs) or structural ("S": a construct
the analysis cannot align, about which it says nothing).
"""
import re
from itertools import product
from .ir import *
from .norm import *
from .interp import flatten, Rec
from . import norm

# calls that change something outside, whatever they are given
OUTSIDE = re.compile(r"(m\.(create|complete|connect|generate\w*|write\w*|unlink|rmdir|mkdir|flush|close|truncate|rename|replace_file|touch|symlink_to|chmod|put|send|seed)|os\.(?!listdir|stat|getcwd|fspath|scandir|walk|getenv)\w+|shutil\..*|open|json\.dump|pickle\.dump|pq\.write\w*|random\..*|np\.random\..*|np\..*\.at|m\.(to_reader|sort_by|finalize)|heapq\..*|\(\)|setattr|delattr|exec|eval|valor_lite\..*|decorated:.*)$")


RECORD = None  # candidate pairs of differing constructs, when collecting


class Diff:
    __slots__ = ("k", "a", "b", "why")

    def __init__(self, k, a, b, why):
        self.k, self.a, self.b, self.why = k, a, b, why
        if RECORD is not None and isinstance(a, T) and isinstance(b, T) and len(RECORD) < 400:
            RECORD[(a, b)] = self

    def __repr__(self):
        return f"{self.k}[{self.why}] expected {sh(self.a)} got {sh(self.b)}"


def sh(x):
    if x is None:
        return "nothing"
    if isinstance(x, T):
        return show(x, 8)[:600]
    return str(x)[:600]


class Cfg:
    """facts about input quantities used when comparing"""

    def __init__(self, nonneg=(), idlike=(), integer=(), oned=(), boolish=(), ordered=False, ignore_guard=True):
        self.nonneg = set(nonneg)
        self.idlike = set(idlike)
        self.integer = set(integer)
        self.oned = set(oned)
        self.boolish = set(boolish)
        self.ordered = ordered
        self.fa = {}
        self.fb = {}

    def name_in(self, t, names):
        if t.op == "sym":
            return t.args[0] in names
        if t.op == "index":
            return self.name_in(t.args[0], names)
        if t.op == "attr":
            return t.args[1] in names or self.name_in(t.args[0], names)
        return False


REDUCE = {"m.sum", "m.mean", "m.max", "m.min", "m.prod", "m.any", "m.all", "m.cumsum", "m.std", "m.var"}
FAMILIES = [
    REDUCE,
    {"np.maximum", "np.minimum"},
    {"max", "min", "m.sum", "len"},
    {"np.unique", "np.sort"},
    {"pa.int64", "pa.int32", "pa.int16", "pa.int8"}, {"pa.uint64", "pa.uint32", "pa.uint16", "pa.uint8"}, {"pa.float64", "pa.float32", "pa.float16"},
    {"m.argmax", "m.argmin", "m.argsort"},
    {"np.floor", "np.ceil", "m.round", "np.rint", "np.trunc", "round", "math.floor", "math.ceil"},
    {"shapely.intersection", "shapely.union", "shapely.difference", "shapely.symmetric_difference"},
    {"m.append", "m.extend"},
    {"m.startswith", "m.endswith"},
    {"m.strip", "m.lstrip", "m.rstrip"},
    {"m.lower", "m.upper"},
    {"re.search", "re.match", "re.fullmatch"},
    {"np.zeros", "np.ones", "np.empty"},
    {"np.zeros_like", "np.ones_like", "np.empty_like"},
    {"np.hstack", "np.vstack"},
    {"pc.less", "pc.less_equal", "pc.greater", "pc.greater_equal", "pc.equal", "pc.not_equal"},
    {"pc.min", "pc.max"},
]
TRIVIAL = {
    "list", "tuple", "np.array", "np.asarray", "m.copy", "float", "int", "m.astype",
    "m.tolist", "iter", "bool", "m.flatten", "m.ravel", "m.reshape", "sorted", "m.item",
    "np.atleast_1d", "pathlib.Path", "str", "m.to_numpy", "pa.array", "m.keys", "m.values", "dict", "set",
    "np.ascontiguousarray", "np.float64", "np.int64", "np.uint8", "np.uint64", "np.intp", "np.bool_", "np.int_", "np.uint", "m.squeeze", "frozenset",
}
NARROW = {"np.int8", "np.int16", "np.int32", "np.uint8", "np.uint16", "np.uint32", "np.float16", "np.float32",
          "pa.int8", "pa.int16", "pa.int32", "pa.float16", "pa.float32", "np.short", "np.half", "np.single", "np.intc"}
INTS = {"np.int64", "np.uint64", "int", "np.intp", "np.uint", "np.int_"}
FLOATS = {"np.float64", "float", "np.double"}
BOOLS = {"np.bool_", "bool", "np.bool"}
HARMLESS_KW = {
    "copy": None, "zero_copy_only": None, "casting": None, "stacklevel": None,
    "order": {None, "C", "K", "A"}, "encoding": {None, "utf-8", "utf8", "UTF-8"},
    "kind": None,
}
LAYOUT = {"np.zeros", "np.ones", "np.empty", "np.full", "np.array", "np.asarray", "np.zeros_like", "np.ones_like", "m.copy", "m.astype", "np.copy", "np.ascontiguousarray"}
STABLE_SORTS = {"stable", "mergesort"}


def immaterial(f, k, v):
    """does giving (or leaving out) this keyword leave the result as it is?"""
    if k not in HARMLESS_KW:
        return False
    if k == "copy":
        return f in ("np.array", "np.asarray", "m.astype", "np.nan_to_num", "pa.array")
    if k == "zero_copy_only":
        return f == "m.to_numpy"
    if k == "order" and f in LAYOUT:
        return True
    c = v.args[0] if v is not None and v.op == "const" else None
    if v is not None and v.op != "const":
        return False
    if k == "kind":
        return f in ("np.sort", "m.sort") or c not in STABLE_SORTS and f in ("np.argsort", "m.argsort")
    ok = HARMLESS_KW[k]
    return ok is None or c in ok


SIZE_ATTRS = {"size", "shape", "ndim", "num_rows", "num_columns", "nbytes"}


def dt_class(t):
    n = None
    if t.op == "ext":
        n = t.args[0]
    elif t.op == "const" and isinstance(t.args[0], str):
        n = t.args[0]
        n = n if n in ("int", "float", "bool") else "np." + n
    elif t.op == "call" and t.args[0].startswith("pa."):
        n = t.args[0]
    if n is None:
        return None
    if n in NARROW:
        return ("narrow", n)
    if n in INTS or n in ("pa.int64", "pa.uint64"):
        return ("int",)
    if n in FLOATS or n == "pa.float64":
        return ("float",)
    if n in BOOLS or n == "pa.bool_":
        return ("bool",)
    return ("other", n)


def diff_dtype(a, b):
    if a is b:
        return []
    if a is None or b is None:
        # default dtype of the numpy constructors is float64
        x = a if b is None else b
        c = dt_class(x)
        if c == ("float",):
            return []
        return [Diff("S", a, b, "dtype")]
    ca, cb = dt_class(a), dt_class(b)
    if ca is None or cb is None:
        return [Diff("S", a, b, "dtype")]
    if ca == cb:
        return []
    if cb[0] == "narrow" and ca[0] in ("int", "float"):
        return [Diff("D", a, b, "narrower element type")]
    if cb[0] == "bool" and ca[0] in ("int", "float"):
        return [Diff("D", a, b, "boolean element type loses counts")]
    if cb[0] == "int" and ca[0] == "float":
        return [Diff("D", a, b, "integer element type truncates")]
    if ca[0] == "narrow":
        if cb[0] in ("int", "float"):
            return []
        return [Diff("S", a, b, "dtype")]
    if ca[0] == "int" and cb[0] == "float":
        return []
    return [Diff("S", a, b, "dtype")]


SIMPLE_CALLS = {"np.isclose", "len"}


def simple(t, depth=0):
    """fully interpreted scalar-ish term whose canonical form decides equality"""
    o = t.op
    if depth > 14:
        return False
    if o in ("const", "sym", "enum", "iv", "ext", "cls"):
        return True
    if o in ("lt", "eq", "div", "in"):
        return all(simple(x, depth + 1) for x in t.args)
    if o in ("not", "truth"):
        return simple(t.args[0], depth + 1)
    if o in ("and", "or", "add", "mul", "tuple"):
        return all(simple(x, depth + 1) for x in t.args[0])
    if o == "index":
        return simple(t.args[0], depth + 1) and simple_key(t.args[1])
    if o == "attr":
        return t.args[1] not in SIZE_ATTRS and simple(t.args[0], depth + 1)
    if o == "call":
        return t.args[0] in SIMPLE_CALLS and all(simple(x, depth + 1) for x in t.args[1])
    if o == "isinst":
        return simple(t.args[0], depth + 1)
    return False


def simple_key(k):
    ks = k.args[0] if k.op == "tuple" else (k,)
    for x in ks:
        if x is norm.FULL or x.op in ("const", "iv", "sym", "enum"):
            continue
        if x.op == "tuple" and all(y.op == "const" for y in x.args[0]):
            continue
        if x.op in ("add", "mul", "index", "attr") and simple(x):
            continue
        return False
    return True


def is_size(t):
    return (
        t.op == "len"
        or (t.op == "attr" and t.args[1] in SIZE_ATTRS)
        or (t.op == "index" and t.args[0].op == "attr" and t.args[0].args[1] == "shape")
        or (t.op == "call" and t.args[0] in ("m.sum", "m.any", "m.all", "m.count_rows", "m.count_tables"))
    )


# ------------------------------------------------------------------ polynomials
ARITH = {"add", "mul", "div"}


def p_add(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if r[k] == 0:
            del r[k]
    return r


def p_mul(a, b):
    r = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            k = tuple(sorted(k1 + k2))
            r[k] = r.get(k, 0) + v1 * v2
            if r[k] == 0:
                del r[k]
    return r


class Poly:
    """rational function over non-arithmetic atoms"""

    def __init__(self):
        self.atoms = {}

    def atom(self, t):
        self.atoms[t.dig] = t
        return {(t.dig,): 1}

    def conv(self, t):
        """(num, den)"""
        if is_num(t):
            v = cval(t)
            if isinstance(v, float) and v == int(v) if isinstance(v, float) and abs(v) < 1e15 else False:
                v = int(v)
            return ({(): v} if v else {}), {(): 1}
        if t.op == "add":
            n, d = {}, {(): 1}
            for x in t.args[0]:
                n2, d2 = self.conv(x)
                if d == d2:
                    n = p_add(n, n2)
                else:
                    n = p_add(p_mul(n, d2), p_mul(n2, d))
                    d = p_mul(d, d2)
            return n, d
        if t.op == "mul":
            n, d = {(): 1}, {(): 1}
            for x in t.args[0]:
                n2, d2 = self.conv(x)
                n, d = p_mul(n, n2), p_mul(d, d2)
                if len(n) > 200:
                    return self.atom(t), {(): 1}
            return n, d
        if t.op == "div":
            n1, d1 = self.conv(t.args[0])
            n2, d2 = self.conv(t.args[1])
            return p_mul(n1, d2), p_mul(d1, n2)
        if t.op == "pow" and is_num(t.args[1]) and cval(t.args[1]) in (2, 3):
            n, d = self.conv(t.args[0])
            rn, rd = n, d
            for _ in range(int(cval(t.args[1])) - 1):
                rn, rd = p_mul(rn, n), p_mul(rd, d)
            return rn, rd
        return self.atom(t), {(): 1}


def close(a, b):
    if set(a) != set(b):
        return False
    return all(a[k] == b[k] or abs(a[k] - b[k]) <= 1e-9 * max(1, abs(a[k])) for k in a)


# ------------------------------------------------------------------ booleans
def strip_cast(t):
    while t.op == "call" and t.args[0] in ("m.astype", "float", "int", "np.float64", "np.int64") and t.args[1]:
        t = t.args[1][0]
    return t


class BoolForm:
    """boolean function over regions of quantities"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.q = {}  # dig -> quantity term/poly key
        self.consts = {}  # dig -> set of constants
        self.terms = {}
        self.flags = {}

    def quantity(self, key, term, c):
        self.terms.setdefault(key, term)
        self.consts.setdefault(key, set()).add(c)

    def comparison(self, x, y, rel):
        """x rel y  ->  ('cmp', key, rel, c) for P rel c"""
        x, y = strip_cast(x), strip_cast(y)
        if (x.op == "const" and not is_num(x)) or (y.op == "const" and not is_num(y)) or x.op in ("enum", "tuple", "fstr", "ext", "cls") or y.op in ("enum", "tuple", "fstr", "ext", "cls"):
            if rel == "==":
                if y.op == "const" or (x.dig > y.dig and x.op != "const"):
                    x, y = y, x
                key = ("eqc", y.dig)
                # several constants compared with the same value exclude each other
                self.terms.setdefault(key, y)
                v = ("k", x.dig)
                self.consts.setdefault(key, set()).add(v)
                self.terms.setdefault(("k", x.dig), x)
                return ("cmp", key, "==", v)
            t = mk("lt", x, y)
            return self.leaf(t)
        P = Poly()
        n, d = P.conv(x)
        n2, d2 = P.conv(y)
        if d == {(): 1} and d2 == {(): 1}:
            p = p_add(n, n2, -1)
            c = p.pop((), 0)
            if p:
                lead = min(p)
                s = p[lead]
                p = {k: v / s if v % s else v // s for k, v in p.items()} if all(isinstance(v, int) for v in p.values()) and isinstance(s, int) else {k: v / s for k, v in p.items()}
                c = -c / s if c else 0
                if s < 0:
                    rel = {"<": ">", "==": "=="}[rel]
                key = ("p", tuple(sorted((k, float(v)) for k, v in p.items())))
                if len(p) == 1 and len(lead) == 1:
                    term = P.atoms[lead[0]]
                else:
                    term = Sub(x, y)
                    if not ((), ) in p and s == 1:
                        pass
                near = None
                if isinstance(c, float) and 0 < abs(c) <= 1e-6:
                    # a tolerance: below it counts as zero
                    near = c > 0
                    c = 0
                if isinstance(c, float) and c == int(c):
                    c = int(c)
                self.quantity(key, term, c)
                self.flags.setdefault(key, [P.atoms[a] for k in p for a in k])
                if near is True and rel == "<":
                    return ("not", ("cmp", key, ">", 0))
                if near is False and rel == ">":
                    return ("not", ("cmp", key, "<", 0))
                return ("cmp", key, rel, c)
            ok = {"<": 0 < -(-c) and c < 0, "==": c == 0}[rel]
            return ("const", bool(ok))
        return self.leaf(mk("lt" if rel == "<" else "eq", x, y))

    def leaf(self, t):
        key = ("p", (((t.dig,), 1.0),))
        self.terms.setdefault(key, t)
        self.consts.setdefault(key, set()).add(0)
        self.flags.setdefault(key, [t])
        self.flags[key + ("b",)] = True
        return ("cmp", key, "!=", 0)

    def build(self, t):
        o = t.op
        if t is TRUE:
            return ("const", True)
        if t is FALSE:
            return ("const", False)
        if o == "and":
            return ("and", [self.build(x) for x in t.args[0]])
        if o == "or":
            return ("or", [self.build(x) for x in t.args[0]])
        if o == "not":
            return ("not", self.build(t.args[0]))
        if o == "ite":
            c = self.build(t.args[0])
            return ("or", [("and", [c, self.build(t.args[1])]), ("and", [("not", c), self.build(t.args[2])])])
        if o == "lt":
            return self.comparison(t.args[0], t.args[1], "<")
        if o == "eq":
            a, b = t.args
            if is_bool(a) and is_bool(b):
                x, y = self.build(a), self.build(b)
                return ("or", [("and", [x, y]), ("and", [("not", x), ("not", y)])])
            return self.comparison(a, b, "==")
        if o == "xor":
            x, y = self.build(t.args[0]), self.build(t.args[1])
            return ("or", [("and", [x, ("not", y)]), ("and", [("not", x), y])])
        if o == "call" and t.args[0] in ("np.isclose", "math.isclose"):
            u, v = t.args[1][:2]
            if is_num(u) and not is_num(v):
                u, v = v, u
            tol = tolerance(t, v)
            if tol is not None and tol <= 2e-5:
                return self.comparison(u, v, "==")
            if tol is None or not is_num(v):
                return self.leaf(t)
            return ("and", [("not", self.comparison(u, C(cval(v) - tol), "<")), ("not", self.comparison(C(cval(v) + tol), u, "<"))])
        if o == "truth":
            x = t.args[0]
            return self.leaf(strip_cast(x))
        if o == "call" and t.args[0] in ("np.zeros", "np.zeros_like", "np.ones", "np.ones_like") and dt_is_bool(t):
            return ("const", "ones" in t.args[0])
        if o == "in":
            xs = norm._static_list(t.args[1]) if t.args[1].op != "setof" else norm._static_list(t.args[1].args[0])
            if xs is not None and len(xs) <= 8:
                return ("or", [self.comparison(t.args[0], x, "==") for x in xs])
            return self.leaf(t)
        return self.leaf(strip_cast(t))

    def regions(self, key):
        cs = self.consts[key]
        if key[0] == "eqc":
            return [("v", c) for c in sorted(cs, key=str)] + [("v", None)]
        ats = self.flags.get(key, [])
        cs = sorted(cs)
        single = key[0] == "p" and len(key[1]) == 1 and len(key[1][0][0]) == 1
        a0 = ats[0] if ats else None
        if self.flags.get(key + ("b",)) and single and (not any(c not in (0, 0.5, 1) for c in cs)):
            return [("pt", 0), ("pt", 1)]
        if single and self.cfg.name_in(a0, self.cfg.boolish):
            return [("pt", 0), ("pt", 1)]
        isint = all(x.op in ("len", "iv") or is_size(x) or self.cfg.name_in(x, self.cfg.integer) or self.cfg.name_in(x, self.cfg.idlike) for x in ats) and all(v == int(v) for _, v in key[1]) if key[0] == "p" else False
        lo = None
        if all(v > 0 for _, v in key[1]):
            if all(is_size(x) or x.op == "iv" or self.cfg.name_in(x, self.cfg.nonneg) for x in ats):
                lo = 0
            elif single and self.cfg.name_in(a0, self.cfg.idlike):
                lo = -1
        out = []
        pts = sorted(set(cs) | ({lo} if lo is not None else set()))
        prev = None
        for c in pts:
            # open interval (prev, c)
            if self.interval_ok(prev, c, isint, lo):
                out.append(("in", prev, c))
            if (lo is None or c >= lo) and (not isint or c == int(c)):
                out.append(("pt", c))
            prev = c
        out.append(("in", prev, None))
        return out

    def interval_ok(self, a, b, isint, lo):
        if lo is not None and b <= lo:
            return False
        if a is None:
            return True
        if isint:
            import math
            x = math.floor(a) + 1
            return x < b
        return True

    def ev(self, n, env):
        k = n[0]
        if k == "const":
            return n[1]
        if k == "and":
            return all(self.ev(x, env) for x in n[1])
        if k == "or":
            return any(self.ev(x, env) for x in n[1])
        if k == "not":
            return not self.ev(n[1], env)
        _, key, rel, c = n
        r = env[key]
        if r[0] == "v":
            return r[1] == c
        if r[0] == "pt":
            v = r[1]
            return {"<": v < c, ">": v > c, "==": v == c, "!=": v != c}[rel]
        lo, hi = r[1], r[2]
        # interval (lo, hi) never contains c
        below = hi is not None and hi <= c
        if rel == "<":
            return below
        if rel == ">":
            return not below
        return rel == "!="


def dt_is_bool(t):
    d = kwarg(t, "dtype")
    if d is None and len(t.args[1]) > 1:
        d = t.args[1][1]
    return d is not None and dt_class(d) == ("bool",)


def keys_of(n):
    if n[0] in ("and", "or"):
        out = set()
        for x in n[1]:
            out |= keys_of(x)
        return out
    if n[0] == "not":
        return keys_of(n[1])
    if n[0] == "cmp":
        return {n[1]}
    return set()


def tolerance(t, v):
    """how far from v counts as close (for values of size 1 when v is not constant)"""
    kw = dict(t.args[2])
    np_ = t.args[0].startswith("np.")
    r = kw.get("rtol" if np_ else "rel_tol", C(1e-5 if np_ else 1e-9))
    z = kw.get("atol" if np_ else "abs_tol", C(1e-8 if np_ else 0))
    if not is_num(r) or not is_num(z) or len(t.args[1]) > 2:
        return None
    return cval(z) + cval(r) * (abs(cval(v)) if is_num(v) else 1)


def diff_bool(a, b, C_, depth):
    """[] when equivalent"""
    if a is b:
        return []
    F = BoolForm(C_.cfg)
    na, nb = F.build(a), F.build(b)
    ka, kb = keys_of(na), keys_of(nb)
    keys = sorted(ka | kb, key=str)
    regs = [F.regions(k) for k in keys]
    size = 1
    for r in regs:
        size *= len(r)
        if size > 40000:
            return [Diff("S", a, b, "condition too large")]
    bad = None
    if size == 0:
        return [Diff("S", a, b, "no region")]
    for combo in product(*regs):
        env = dict(zip(keys, combo))
        if F.ev(na, env) != F.ev(nb, env):
            bad = env
            break
    if bad is None:
        return []
    only_a = [k for k in keys if k in ka and k not in kb]
    only_b = [k for k in keys if k in kb and k not in ka]
    # keys the difference really depends on
    if not only_a and not only_b:
        return [Diff("D", a, b, "condition differs")]
    foreign = [F.terms[k] for k in only_a + only_b]
    if only_a and only_b and all(any(z.op == "call" and z.args[0].startswith("heapq.") and any(w.op == "phi" and w.args[2] != "@" for w in walk(z)) for z in walk(t)) for t in foreign):
        # what comes off a heap, in states of loops that are not known to be the same
        return [Diff("S", a, b, "condition of another loop state")]
    if all(simple(t) and not any(is_size(x) for x in walk(t)) for t in foreign):
        return [Diff("D", a, b, "condition depends on something else")]
    if not only_a or not only_b:
        # a whole test was dropped or added
        if all(interpreted(t) and not any(is_size(x) for x in walk(t)) and t.op not in ("exists", "phi") for t in foreign):
            return [Diff("D", a, b, "test " + ("added" if only_b else "dropped"))]
    if RECORD is not None:
        atom_candidates(a, b)
    if len(only_a) == len(only_b):
        used = set()
        out = []
        m = {}
        for k in only_a:
            best = None
            for k2 in only_b:
                if k2 in used:
                    continue
                d = C_.diff(F.terms[k], F.terms[k2], depth + 1)
                if not d:
                    best = (k2, d)
                    break
                if all(x.k == "D" for x in d) and (best is None or len(d) < len(best[1])):
                    best = (k2, d)
            if best is None:
                return [Diff("S", a, b, "condition not aligned")]
            used.add(best[0])
            out.extend(best[1])
            m[best[0]] = k
        if out:
            return out
        # pairs are equivalent: re-evaluate with the pairing
        keys2 = sorted(ka, key=str)
        regs2 = [F.regions(k) for k in keys2]
        for combo in product(*regs2):
            env = dict(zip(keys2, combo))
            env2 = dict(env)
            for k2, k in m.items():
                env2[k2] = env[k]
            try:
                if F.ev(na, env) != F.ev(nb, env2):
                    return [Diff("D", a, b, "condition differs")]
            except TypeError:
                # regions of different kinds of values
                return [Diff("S", a, b, "condition not aligned")]
        return []
    return [Diff("S", a, b, "condition not aligned")]


ATOMS = ("lt", "eq", "in", "truth", "isinst", "exists", "call", "index", "sym", "attr")


def bool_atoms(t, out):
    if t.op in ("and", "or"):
        for x in t.args[0]:
            bool_atoms(x, out)
    elif t.op == "not":
        bool_atoms(t.args[0], out)
    elif t.op == "ite":
        for x in t.args:
            bool_atoms(x, out)
    elif t.op in ATOMS:
        out.append(t)


def atom_candidates(a, b):
    xa, xb = [], []
    bool_atoms(a, xa)
    bool_atoms(b, xb)
    da = [x for x in xa if x not in xb]
    db = [x for x in xb if x not in xa]
    for x in da[:6]:
        for y in db[:6]:
            if len(RECORD) < 400:
                RECORD[(x, y)] = None
                RECORD[(Not(x), y)] = None


# ------------------------------------------------------------------ diff
class Cmp:
    appended = False

    def __init__(self, cfg=None, pa=None, pb=None):
        self.cfg = cfg or Cfg()
        self.memo = {}
        self.local = False  # comparing parts found in places that are not known to correspond
        self.loose = 0  # inside something for which the order of elements does not matter
        self.inside = None  # the container whose writes are compared
        self.pa = pa or {}
        self.pb = pb or {}
        self.assume = set()

    def diff(self, a, b, depth=0):
        if a is b:
            return []
        k = (a, b, self.loose > 0, self.local)
        r = self.memo.get(k)
        if r is not None:
            return r
        if depth > 60:
            return [Diff("S", a, b, "too deep")]
        r = self._diff(a, b, depth)
        self.memo[k] = r
        return r

    def many(self, xs, ys, depth, why, a, b):
        if len(xs) != len(ys):
            return [Diff("D" if why == "tuple" else "S", a, b, f"{why} length")]
        out = []
        for x, y in zip(xs, ys):
            d = self.diff(x, y, depth + 1)
            out.extend(settle(d) if why == "tuple" else d)
        return out

    def _diff(self, a, b, depth):
        a, b = canon_ratio(a), canon_ratio(b)
        if a is b:
            return []
        if a.op == "plane" or b.op == "plane":
            if a.op == b.op:
                return self.diff(a.args[0], b.args[0], depth + 1)
            x, y = (a.args[0], b) if a.op == "plane" else (a, b.args[0])
            return self.diff(canon_plane(x), canon_plane(y), depth + 1)
        if is_bool(a) and is_bool(b):
            return diff_bool(a, b, self, depth)
        if is_bool(a) != is_bool(b) and (a.op in ("sym", "index") or b.op in ("sym", "index")):
            r = diff_bool(a if is_bool(a) else mk("truth", a), b if is_bool(b) else mk("truth", b), self, depth)
            if not r:
                return r
        if a.op in ARITH or b.op in ARITH or (is_num(a) and is_num(b)):
            return self.arith(a, b, depth)
        ka, kb = log_parts(a), log_parts(b)
        if a.op == "log" or b.op == "log":
            return self.logs(a, b, depth)
        if a.op == "ite" or b.op == "ite":
            return self.cases(a, b, depth)
        if a.op != b.op:
            return self.other(a, b)
        o = a.op
        if o in ("sym", "const", "ext", "enum", "cls", "empty", "fn", "mod"):
            if o == "const" and is_num(a) and is_num(b):
                return [] if cval(a) == cval(b) else [Diff("D", a, b, "constant")]
            if o in ("cls", "fn", "ext"):
                return [Diff("D", a, b, "different entity")] if o != "ext" else [Diff("S", a, b, "different entity")]
            if o == "empty":
                return [Diff("S", a, b, "container")]
            return [Diff("D", a, b, "different value")]
        if o == "call":
            return self.calls(a, b, depth)
        if o == "index":
            r = self.diff(a.args[0], b.args[0], depth + 1)
            r2 = self.key(a.args[1], b.args[1], depth + 1)
            if r and r2 and not (simple(a) and simple(b)):
                p1, p2 = {(d.a, d.b) for d in r}, {(d.a, d.b) for d in r2}
                if (p1 <= p2 or p2 <= p1) and all(d.k == "D" for d in r + r2):
                    return r + r2
                # both base and key differ: likely another way to select
                return [Diff("S", a, b, "selection")]
            return r + r2
        if o == "attr":
            if a.args[1] != b.args[1]:
                if a.args[0] is b.args[0] and a.args[1] not in SIZE_ATTRS and b.args[1] not in SIZE_ATTRS:
                    return [Diff("D", a, b, "different attribute")]
                return [Diff("S", a, b, "attribute")]
            return self.diff(a.args[0], b.args[0], depth + 1)
        if o == "tuple":
            return self.many(a.args[0], b.args[0], depth, "tuple", a, b)
        if o == "slice":
            out = []
            for x, y in zip(a.args, b.args):
                if x is not y:
                    if (x is NONE) != (y is NONE):
                        if {x, y} <= {NONE, C(0)} and False:
                            continue
                        out.append(Diff("D", a, b, "slice bound"))
                    else:
                        out.extend(self.diff(x, y, depth + 1))
            return out
        if o == "obj":
            if a.args[0] != b.args[0]:
                return [Diff("D", a, b, "different class")]
            da, db = dict(a.args[2]), dict(b.args[2])
            out = []
            for k in sorted(set(da) | set(db)):
                if k not in da or k not in db:
                    x = da.get(k) or db.get(k)
                    miss_a, miss_b = set(db) - set(da), set(da) - set(db)
                    if k.startswith("_") and ((miss_a and miss_b) or k not in da or not interpreted(x)):
                        out.append(Diff("S", a, b, f"field {k}"))
                    else:
                        out.append(Diff("D", da.get(k), db.get(k), f"field {k}"))
                    continue
                for d in self.diff(da[k], db[k], depth + 1):
                    out.append(Diff(d.k, d.a, d.b, f".{k}: {d.why}" if not d.why.startswith(".") else d.why))
            return out
        if o == "safediv":
            return self.safediv(a, b, depth)
        if o == "fstr":
            return self.fstr(a, b, depth)
        if o in ("sum", "exists", "last", "fold"):
            return self.binder(a, b, depth)
        if o == "phi":
            return self.phi(a, b, depth)
        if o == "iv":
            return [Diff("S", a, b, "loop index")]
        if o == "dom":
            return self.diff(a.args[0], b.args[0], depth + 1)
        if o in ("len", "setof", "truth"):
            return self.loosely(self.diff, a.args[0], b.args[0], depth + 1)
        if o in ("star", "neg"):
            return self.diff(a.args[0], b.args[0], depth + 1)
        if o == "isinst":
            r = self.diff(a.args[0], b.args[0], depth + 1)
            if a.args[1] is not b.args[1]:
                r = r + [Diff("D", a, b, "type test")]
            return r
        if o in ("in", "xor", "lshift", "rshift", "floordiv", "mod", "pow", "matmul", "repeat", "mut", "elem"):
            if len(a.args) == len(b.args):
                out = []
                for x, y in zip(a.args, b.args):
                    if isinstance(x, T) and isinstance(y, T):
                        out.extend(self.loosely(self.diff, x, y, depth + 1) if o == "in" else self.diff(x, y, depth + 1))
                    elif x != y:
                        out.append(Diff("S", a, b, o))
                return out
        if o == "lambda":
            if a.args[0] == b.args[0]:
                return self.diff(a.args[1], b.args[1], depth + 1)
        return [Diff("S", a, b, f"unaligned {o}")]

    def other(self, a, b):
        if a.op == "safediv":
            if b.op == "call" and b.args[0] in ("np.zeros", "np.zeros_like") or b.op == "const":
                return [Diff("D", a, b, "division dropped")]
        # one side is exactly a part of the other: something was dropped or added
        for x, y, w in ((a, b, "dropped"), (b, a, "added")):
            if x.op == "call" and x.args[0] not in TRIVIAL and any(z is y for z in x.args[1][:1]):
                if x.args[0] in ("np.maximum", "np.minimum", "max", "min", "np.clip", "m.clip", "np.abs", "abs", "np.nan_to_num", "np.copy", "np.squeeze", "np.ravel", "m.combine_chunks", "m.resolve", "m.absolute", "np.require") and all(is_num(z) for z in x.args[1][1:]) and all(is_num(z) for _, z in x.args[2]):
                    # may well be there for a case that does not arise
                    return [Diff("S", a, b, f"{x.args[0]} {w}")]
                return [Diff("D", a, b, f"{x.args[0]} {w}")]
            if x.op == "index" and x.args[0] is y and x.args[1].op == "tuple" and x.args[1].args[0][0] is norm.FULL and (self.loose or getattr(self, "sizes", 0)):
                # as many rows as before
                return [Diff("S", a, b, "selection")]
            if x.op in ("index",) and x.args[0] is y and simple_key(x.args[1]):
                return [Diff("D", a, b, f"selection {w}")]
            if x.op == "index" and x.args[0] is y and is_bool(x.args[1]):
                return [Diff("D", a, b, f"filter {w}")]
            if x.op == "setof" and x.args[0] is y:
                return [Diff("D", a, b, f"uniqueness {w}")]
        if b.op == "const" and b is not NONE and interpreted(a) and a.op in ("call", "index", "attr", "sym", "len", "sum", "setof", "exists", "in", "fold", "last"):
            return [Diff("D", a, b, "replaced by a constant")]
        if a is NONE or b is NONE:
            if simple(a) and simple(b):
                return [Diff("D", a, b, "None")]
            return [Diff("S", a, b, "None")]
        if simple(a) and simple(b) and not any(is_size(x) for t in (a, b) for x in walk(t)):
            return [Diff("D", a, b, "different value")]
        return [Diff("S", a, b, f"{a.op} / {b.op}")]

    def key(self, x, y, depth):
        if x is y:
            return []
        xs = x.args[0] if x.op == "tuple" else (x,)
        ys = y.args[0] if y.op == "tuple" else (y,)
        if len(xs) != len(ys):
            if not all(basic_key(z) for z in xs + ys):
                return [Diff("S", x, y, "index shape")]
            n = max(len(xs), len(ys))
            xs, ys = (tuple(z) + (norm.FULL,) * (n - len(z)) for z in (xs, ys))
        out = []
        for p, q in zip(xs, ys):
            if p is q:
                continue
            p2, q2 = static_key(p), static_key(q)
            if p2 is q2:
                continue
            if p2.op == "tuple" and q2.op == "tuple":
                out.append(Diff("D", x, y, "columns"))
                continue
            if (p2 is norm.FULL) != (q2 is norm.FULL):
                r = q2 if p2 is norm.FULL else p2
                if r.op == "slice" and basic_key(r) and r.args[2] is NONE and (is_num(r.args[0]) and cval(r.args[0]) > 0 or is_num(r.args[1]) and cval(r.args[1]) < 0):
                    out.append(Diff("D", x, y, "part of the rows"))
                    continue
                out.append(Diff("D" if is_bool(p2) or is_bool(q2) or (simple(p2) if q2 is norm.FULL else simple(q2)) else "S", x, y, "selection"))
                continue
            out.extend(self.diff(p2, q2, depth + 1))
        return out

    def calls(self, a, b, depth):
        fa, fb = a.args[0], b.args[0]
        if fa != fb:
            for fam in FAMILIES:
                if fa in fam and fb in fam:
                    if self.args_equal(a, b, depth):
                        return [Diff("D", a, b, "different function")]
                    return [Diff("S", a, b, "different function")]
            if fa.startswith("valor_lite.") and fb.startswith("valor_lite."):
                if len(a.args[1]) == len(b.args[1]) == 1 and a.args[1][0].op == b.args[1][0].op == "obj" and a.args[1][0] is not b.args[1][0]:
                    # properties of an object in two states that may not correspond
                    return [Diff("S", a, b, "different callee")]
                return [Diff("D", a, b, "different callee")]
            r = self.other(a, b)
            return r
        out = []
        xa, xb = a.args[1], b.args[1]
        if len(xa) != len(xb):
            return [Diff("S", a, b, "arguments")]
        if fa in ("np.array", "np.asarray", "m.astype", "pa.array") and len(xa) >= 1:
            out.extend(self.diff(xa[0], xb[0], depth + 1))
            if len(xa) == 2:
                out.extend(diff_dtype(xa[1], xb[1]))
        elif fa in ("np.maximum", "np.minimum", "np.isclose", "max", "min") and len(xa) == 2:
            out.extend(self.unordered(list(xa), list(xb), depth, a, b))
        else:
            for x, y in zip(xa, xb):
                out.extend(self.loosely(self.diff, x, y, depth + 1) if fa in UNORDERED and "key" not in dict(a.args[2]) else self.diff(x, y, depth + 1))
        ka, kb = dict(a.args[2]), dict(b.args[2])
        if fa == "np.bincount" and ("weights" in ka) != ("weights" in kb):
            # counting what a mask selects, or all of it with the mask as weights
            return [Diff("S", a, b, "weights")]
        for k in sorted(set(ka) | set(kb)):
            if immaterial(a.args[0], k, ka.get(k)) and immaterial(a.args[0], k, kb.get(k)):
                continue
            if k == "order" and a.args[0] in ("m.flatten", "m.ravel", "m.reshape", "np.ravel", "np.reshape"):
                out.append(Diff("D", a, b, "elements in another order"))
                continue
            if k in ("dtype", "type"):
                d = diff_dtype(ka.get(k), kb.get(k))
                if d and ka.get(k) is None and dt_class(kb[k])[:1] == ("narrow",) and a.args[0].split(".")[-1] in ("sum", "cumsum", "prod", "mean", "dot"):
                    d = [Diff("D", a, b, "narrower element type")]
                out.extend(d)
                continue
            if k not in ka or k not in kb:
                v = ka.get(k) if k in ka else kb.get(k)
                sure = k in ("axis", "minlength", "return_counts", "return_index", "weights", "descending", "reverse", "key", "filter", "columns", "compression", "invert")
                if k == "weights" and not (a.args[1] and b.args[1] and a.args[1][0] is b.args[1][0]):
                    sure = False
                elif not sure and interpreted(v) and given(v):
                    sure = True
                out.append(Diff("D" if sure else "S", a, b, f"argument {k}"))
                continue
            if k == "axis" and is_num(ka[k]) and is_num(kb[k]) and (cval(ka[k]) < 0) != (cval(kb[k]) < 0):
                # counted from the other end
                out.append(Diff("S", a, b, "axis"))
                continue
            by_name = k == "columns" and "iterate_tables" in fa
            for d in self.loosely(self.diff, ka[k], kb[k], depth + 1) if by_name else self.diff(ka[k], kb[k], depth + 1):
                out.append(Diff(d.k, d.a, d.b, d.why if ":" in d.why else f"{k}: {d.why}"))
        return out

    def loosely(self, f, *a):
        self.loose += 1
        try:
            return f(*a)
        finally:
            self.loose -= 1

    def args_equal(self, a, b, depth):
        if len(a.args[1]) != len(b.args[1]) or a.args[2] != b.args[2]:
            return False
        return all(not self.diff(x, y, depth + 1) for x, y in zip(a.args[1], b.args[1])) or not self.unordered(list(a.args[1]), list(b.args[1]), depth, a, b)

    def unordered(self, xs, ys, depth, a, b, why="operand"):
        """differences between multisets of terms"""
        xs, ys = list(xs), list(ys)
        for x in list(xs):
            for y in ys:
                if x is y or not self.diff(x, y, depth + 1):
                    xs.remove(x)
                    ys.remove(y)
                    break
        if not xs and not ys:
            return []
        if len(xs) != len(ys):
            return [Diff("D" if all(simple(z) for z in xs + ys) else "S", a, b, why + " count")]
        out = []
        for x in xs:
            best = None
            for y in ys:
                d = self.diff(x, y, depth + 1)
                s = (any(z.k == "S" for z in d), len(d))
                if best is None or s < best[0]:
                    best = (s, y, d)
            ys.remove(best[1])
            out.extend(best[2])
        return out

    def arith(self, a, b, depth):
        for x, y, w in ((a, b, "lost"), (b, a, "added")):
            if x.op == "safediv" and y.op == "div" and not self.arith(Div(x.args[0], x.args[1]), y, depth):
                return [Diff("D", a, b, f"guard of the division {w}")]
        P = Poly()
        na, da = P.conv(a)
        nb, db = P.conv(b)
        if close(p_mul(na, db), p_mul(nb, da)):
            return []
        ata = {x for k in list(na) + list(da) for x in k}
        atb = {x for k in list(nb) + list(db) for x in k}
        oa, ob = sorted(ata - atb), sorted(atb - ata)
        if not oa and not ob:
            return [Diff("D", a, b, "arithmetic")]
        A, B = [P.atoms[x] for x in oa], [P.atoms[x] for x in ob]
        if len(A) == len(B):
            out = []
            left = list(zip(ob, B))
            m = {}
            ok = True
            for dx, x in zip(oa, A):
                best = None
                for dy, y in left:
                    d = self.diff(x, y, depth + 1)
                    s = (any(z.k == "S" for z in d), len(d))
                    if best is None or s < best[0]:
                        best = (s, dy, y, d)
                if best is None:
                    ok = False
                    break
                left.remove((best[1], best[2]))
                m[best[1]] = dx
                out.extend(best[3])
            if ok and out:
                return out
            if ok:
                ren = lambda p: {tuple(sorted(m.get(x, x) for x in k)): v for k, v in p.items()}
                if close(p_mul(na, ren(db)), p_mul(ren(nb), da)):
                    return []
                return [Diff("D", a, b, "arithmetic")]
        if all(simple(t) and not any(is_size(x) for x in walk(t)) for t in A + B):
            return [Diff("D", a, b, "arithmetic")]
        if not A or not B:
            # a whole interpreted term was added or dropped
            if all(interpreted(t) for t in A + B):
                return [Diff("D", a, b, "arithmetic term")]
        return [Diff("S", a, b, "arithmetic")]

    def safediv(self, a, b, depth):
        out = []
        ra, rb = Div(a.args[0], a.args[1]), Div(b.args[0], b.args[1])
        out.extend(self.arith(ra, rb, depth))
        old = self.cfg.nonneg
        out.extend(self.guard(a.args[2], b.args[2], a.args[1], depth))
        if a.args[3] is not b.args[3]:
            out.extend(self.diff(a.args[3], b.args[3], depth + 1))
        return out

    def guard(self, ga, gb, den, depth):
        if ga is gb:
            return []
        F = BoolForm(self.cfg)
        na, nb = F.build(ga), F.build(gb)
        ks = keys_of(na) | keys_of(nb)
        # denominators are non-negative; restrict regions
        bad = False
        keys = sorted(ks, key=str)
        regs = []
        probe = F.build(mk("lt", C(0), den))
        dk = {(x[1], x[2] == "<") for x in [probe[1] if probe[0] == "not" else probe] if x[0] == "cmp"}
        for k in keys:
            r = F.regions(k)
            if (k, True) in dk:
                r = [x for x in r if not (x[0] == "in" and (x[1] is not None and x[1] >= 0)) and not (x[0] == "pt" and isinstance(x[1], (int, float)) and x[1] > 0)]
            elif (k, False) in dk or k[0] == "p" and all(v > 0 for _, v in k[1]):
                r = [x for x in r if not (x[0] == "in" and (x[2] is not None and x[2] <= 0)) and not (x[0] == "pt" and isinstance(x[1], (int, float)) and x[1] < 0)]
            regs.append(r)
        from itertools import product as pr
        for combo in pr(*regs):
            env = dict(zip(keys, combo))
            if F.ev(na, env) != F.ev(nb, env):
                bad = True
                break
        if not bad:
            return []
        return diff_bool(ga, gb, self, depth)

    def fstr(self, a, b, depth):
        pa = [x for x in a.args[0]]
        pb = [x for x in b.args[0]]
        if len(pa) != len(pb):
            return [Diff("S", a, b, "text")]
        out = []
        for x, y in zip(pa, pb):
            if x.op == "const" and y.op == "const":
                if x is not y:
                    out.append(Diff("S", x, y, "text"))
            else:
                out.extend(self.diff(x, y, depth + 1))
        return out

    def align_iv(self, doma, iva, domb, ivb, xs, depth):
        d = self.diff(doma, domb, depth + 1) if doma is not domb else []
        if any(x.k == "S" for x in d):
            return d, None
        if iva is not ivb:
            m = {ivb: iva}
            xs = [subst(x, m) for x in xs]
        return d, xs

    def binder(self, a, b, depth):
        if a.op == "fold":
            doma, iva, pa, ia, fa = a.args
            domb, ivb, pb, ib, fb = b.args
            d, r = self.align_iv(doma, iva, domb, ivb, [fb], depth)
            if r is None:
                return d
            f2 = subst(r[0], {pb: pa})
            return d + self.diff(ia, ib, depth + 1) + self.diff(fa, f2, depth + 1)
        doma, iva, ea = a.args[:3]
        domb, ivb, eb = b.args[:3]
        d, r = self.align_iv(doma, iva, domb, ivb, [eb], depth)
        if r is None:
            return d
        out = d + self.diff(ea, r[0], depth + 1)
        if len(a.args) > 3:
            out += self.diff(a.args[3], b.args[3], depth + 1)
        return out

    def phi(self, a, b, depth):
        if (a, b) in self.assume:
            return []
        x, y = self.pa.get(a), self.pb.get(b)
        if a.args[2] in ("?", "@") or b.args[2] in ("?", "@") or x is None or y is None:
            return [Diff("S", a, b, "loop state")]
        d = self.diff(a.args[0], b.args[0], depth + 1)
        if any(z.k == "S" for z in d):
            return d
        m = {y[0]: x[0]}
        if a.args[0] is not b.args[0]:
            m[mk("iv", b.args[0], b.args[1])] = mk("iv", a.args[0], a.args[1])
        self.assume.add((a, b))
        d = d + self.diff(x[1], y[1], depth + 1)
        d = d + self.diff(x[2], subst(y[2], m), depth + 1)
        self.assume.discard((a, b))
        return d

    # ---------------------------------------------------------------- cases
    def cases(self, a, b, depth):
        ca, cb = flat_cases(a), flat_cases(b)
        if len(ca) > 12 or len(cb) > 12:
            return [Diff("S", a, b, "cases")]
        A = group(ca)
        B = group(cb)
        left_a, left_b = list(A), list(B)
        out = []
        for va in list(left_a):
            for vb in left_b:
                if va is vb or not self.diff(va, vb, depth + 1):
                    out.extend(diff_bool(A[va], B[vb], self, depth))
                    left_a.remove(va)
                    left_b.remove(vb)
                    break
        if not left_a and not left_b:
            return out
        if len(left_a) == len(left_b):
            for va in left_a:
                best = None
                for vb in left_b:
                    d = self.diff(va, vb, depth + 1) + diff_bool(A[va], B[vb], self, depth)
                    s = (any(z.k == "S" for z in d), len(d))
                    if best is None or s < best[0]:
                        best = (s, vb, d)
                left_b.remove(best[1])
                out.extend(best[2])
            return out
        # one side has a case the other lacks
        extra = left_a + left_b
        src = A if left_a else B
        if left_a and left_b:
            return out + [Diff("S", a, b, "cases")]
        if all(size_guard(src[v], self.cfg) for v in extra):
            return out + [Diff("S", a, b, "guarded case")]
        if all(interpreted(src[v]) and interpreted(v) for v in extra):
            return out + [Diff("D", a, b, "case " + ("missing" if left_a else "added"))]
        return out + [Diff("S", a, b, "cases")]

    # ---------------------------------------------------------------- logs
    def logs(self, a, b, depth):
        ba, _ = log_parts(a)
        bb, _ = log_parts(b)
        out = []
        if ba is not bb:
            out = self.diff(ba, bb, depth + 1)
            if any(x.k == "S" for x in out):
                return [Diff("S", a, b, "container")]
        ra, rb = flatten(a), flatten(b)
        if out and bool(ra) != bool(rb):
            # filled piece by piece on one side only
            return [Diff("S", a, b, "container")]
        saved, self.inside = self.inside, (ba, ra)
        r = self.records(ra, rb, depth, a, b)
        self.inside = saved
        if not r and not self.loose:
            r = self.sequence(a, b, depth)
        return out + r

    def sequence(self, a, b, depth):
        """the same writes: are they made in an order that leaves the same contents?"""
        ra, rb = placed(a), placed(b)
        if len(ra) != len(rb) or len(ra) > 60:
            return []
        left = list(range(len(rb)))
        m = []
        for x, _ in ra:
            j = next((j for j in left if not self.rec_diff(x, rb[j][0], depth)), None)
            if j is None:
                return []
            left.remove(j)
            m.append(j)
        for i, (x, lx) in enumerate(ra):
            y, ly = rb[m[i]]
            if x.action in SEQ and [l[1] for l in x.loops()] != [l[1] for l in y.loops()] and len(lx) > 1:
                if sorted(id(l[1]) for l in x.loops()) == sorted(id(l[1]) for l in y.loops()):
                    return [Diff("D", a, b, "order of nested loops")]
            for k in range(i):
                z, lz = ra[k]
                w, lw = rb[m[k]]
                sx = sum(p == q for p, q in zip(lx, lz))
                sy = sum(p == q for p, q in zip(ly, lw))
                if m[k] < m[i] and sx == sy:
                    continue
                c = commute(z, x, sx == len(lx) == len(lz) and sy == len(ly) == len(lw), min(sx, sy))
                if c:
                    continue
                if same_write(z, x):
                    continue
                return [Diff("D" if c is False else "S", a, b, "order of writes")]
        return []

    def rec_diff(self, x, y, depth, full=True):
        """differences between two records"""
        lx, ly = x.loops(), y.loops()
        if len(lx) != len(ly):
            return [Diff("S", recT(x), recT(y), "loop nesting")]
        if x.action != y.action:
            k = "D" if {x.action, y.action} <= INPLACE else "S"
            if k == "S" and self.same_but_action(x, y, depth):
                k = "D"
            return [Diff(k, recT(x), recT(y), "write kind")]
        m = {}
        out = []
        # loops are matched by domain, then in order
        ly2 = list(ly)
        pairs = []
        for l in lx:
            hit = next((q for q in ly2 if q[1] is l[1]), None)
            if hit is not None:
                ly2.remove(hit)
            pairs.append((l, hit))
        pairs = [(l, h if h is not None else ly2.pop(0)) for l, h in pairs]
        for l, h in pairs:
            if l[2] is not h[2]:
                m[h[2]] = l[2]
        f = (lambda t: subst(t, m)) if m else (lambda t: t)
        for l, h in pairs:
            if l[1] is not h[1]:
                d = self.diff(l[1], f(h[1]), depth + 1)
                if any(z.k == "S" for z in d):
                    return [Diff("S", recT(x), recT(y), "loop domain")]
                out.extend(d)
        cx, cy = And(*needed(x)), f(And(*needed(y)))
        out.extend(diff_bool(cx, cy, self, depth) if cx is not cy else [])
        if len(x.path) != len(y.path):
            return [Diff("S", recT(x), recT(y), "write target")]
        for p, q in zip(x.path, y.path):
            if p.op == "fld" or q.op == "fld":
                if p is not q:
                    out.append(Diff("D", p, q, "field"))
                continue
            out.extend(self.key(p, f(q), depth + 1))
        if x.value is not None and y.value is not None:
            out.extend(self.diff(x.value, f(y.value), depth + 1))
        return out

    def same_but_action(self, x, y, depth):
        """a scatter turned into a plain indexed update, or an accumulation into an overwrite"""
        p, q = x.action, y.action
        if p == "scatter_" + q:
            pass
        elif {p, q} <= {"set", "add", "sub", "or"}:
            if not self.overwrites(x):
                return False
        else:
            return False
        ivs = {l[2] for l in x.loops()} | {l[2] for l in y.loops()}
        v = y.value
        if p == "add" and q == "set" and v is not None and x.value is not None and interpreted(v) and ivs and any(ivs & set(walk(k)) for k in y.path) and not ivs & set(walk(v)) and not any(z.op == "phi" for z in walk(v)):
            # counters of several groups all set to the same number
            v = x.value
        z = Rec(y.ctx, y.path, p, v)
        return not self.rec_diff(x, z, depth)

    def overwrites(self, x):
        """can the place x writes to hold something already?"""
        base, ra = self.inside or (None, ())
        if base is not None and outer_given(base):
            return True
        mask = any(is_bool(k) for k in x.path)
        for dom, iv in ((l[1], l[2]) for l in x.loops()):
            if not any(tells_apart(k, iv) for k in x.path) and not (mask and any(iv in set(walk(k)) for k in x.path if is_bool(k))):
                return True
        if mask and x.action in ("or", "add"):
            fixed = [k for k in x.path if not is_bool(k)]
            for r in ra:
                if r is x:
                    break
                if [k for k in r.path if not is_bool(k)] == fixed and r.path != x.path and len(r.path) == len(x.path) and r.value is not x.value:
                    return True
        return False

    def records(self, ra, rb, depth, a, b):
        ra, rb = list(ra), list(rb)
        for x in list(ra):
            for y in rb:
                if not self.rec_diff(x, y, depth):
                    ra.remove(x)
                    rb.remove(y)
                    break
        if not ra and not rb:
            return []
        if not ra or not rb:
            rest = ra or rb
            w = "missing" if ra else "extra"
            out = []
            for r in rest:
                k = "D"
                if not all(interpreted(c) for c in r.conds()) or not interpreted(r.value):
                    k = "S"
                if r.action == "set" and r.value is not None and r.value.op == "empty" and any(z.op == "not" and z.args[0].op == "in" for c in r.conds() for z in ([c] if c.op != "and" else c.args[0])):
                    # a place made where there is none yet
                    k = "S"
                if self.local and r.action == "append" and not r.path and not r.conds() and a.op != "empty" and b.op != "empty" and outer_given(log_parts(a)[0]):
                    # the states of an object at two moments that are not known to correspond
                    k = "S"
                if r.action.startswith(("call:", "effect call:")) and not OUTSIDE.match(r.value.args[0] if r.value is not None and r.value.op == "call" else ""):
                    # a call nothing is known about
                    k = "S"
                out.append(Diff(k, recT(r) if ra else None, recT(r) if rb else None, f"{w} write"))
            return out
        if len(ra) != len(rb):
            # the same cell written under complementary conditions
            return [Diff("S", a, b, "writes not aligned")]
        out = []
        left = list(rb)
        for x in ra:
            best = None
            for y in left:
                d = self.rec_diff(x, y, depth)
                s = (any(z.k == "S" for z in d), len(d))
                if best is None or s < best[0]:
                    best = (s, y, d)
            left.remove(best[1])
            out.extend(settle(best[2]))
        return out


def needed(r):
    """the conditions of a record, without those a loop inside them implies: over nothing, nothing is done"""
    out = []
    for i, c in enumerate(r.ctx):
        if c[0] != "when":
            continue
        doms = [l[1].args[0] for l in r.ctx[i + 1:] if l[0] == "each" and l[1].op == "dom"]
        for p in c[1].args[0] if c[1].op == "and" else (c[1],):
            if p.op == "truth" and (p.args[0] in doms or mk("len", p.args[0]) in doms):
                continue
            if p.op == "lt" and is_num(p.args[0]) and cval(p.args[0]) == 0 and p.args[1] in doms:
                continue
            out.append(p)
    return out


UNORDERED = {"set", "frozenset", "sorted", "max", "min", "np.unique", "np.sort", "any", "all", "len", "m.issubset", "m.issuperset", "m.union"}


def outer_given(t):
    """a container the caller handed in: it can hold anything"""
    while t.op in ("attr", "index"):
        t = t.args[0]
    return t.op == "sym"


def tells_apart(k, iv):
    """index k takes another value at every turn of the loop"""
    if k is iv:
        return True
    if k.op in ("tuple",):
        return any(tells_apart(z, iv) for z in k.args[0])
    if k.op == "add":
        return iv in k.args[0] and all(z is iv or iv not in set(walk(z)) for z in k.args[0])
    if k.op == "call" and k.args[0] in ("int", "m.astype", "np.int64", "m.item", "str", "float") and k.args[1]:
        return tells_apart(k.args[1][0], iv)
    if k.op == "index" and iv not in set(walk(k.args[0])):
        i = k.args[1]
        if i is iv or i.op == "tuple" and any(z is iv for z in i.args[0]):
            # distinct values, or nothing is known of them
            return not labels_of_rows(k.args[0])
    return False


def labels_of_rows(t):
    """a column of the data: values repeat"""
    if t.op == "call" and t.args[0] in ("np.unique", "set", "sorted", "list", "m.keys", "range", "np.arange") or t.op == "index" and t.args[0].op == "call" and t.args[0].args[0] in ("np.unique", "np.where", "np.nonzero"):
        return False
    return any(z.op == "index" and z.args[1].op == "tuple" and any(y.op == "slice" for y in z.args[1].args[0]) for z in walk(t))


def given(v):
    """a value that comes from the caller or the object, hence no fixed default"""
    return any(x.op in ("sym", "attr") for x in walk(v))


SEQ = {"append", "extend", "insert", "appendleft"}
COMMUTING = {"add", "or", "and", "scatter_add", "scatter_or", "mul", "sub", "ior", "iand", "iadd"}


def placed(t):
    """records of a log, each with the occurrences of the loops it is in"""
    _, es = log_parts(t)
    out, n = [], [0]

    def rec(es, ctx, ls):
        for e in es:
            if e.op == "ent":
                out.append((Rec(ctx, e.args[0], e.args[1], e.args[2]), ls))
            elif e.op == "when":
                rec(e.args[1], ctx + (("when", e.args[0]),), ls)
            else:
                n[0] += 1
                rec(e.args[2], ctx + (("each", e.args[0], e.args[1]),), ls + (n[0],))

    rec(es, (), ())
    return out


def same_write(x, y):
    return x.action == y.action and x.value is y.value and x.path == y.path


def apart(p, q):
    """two keys that are never the same place"""
    if p is q:
        return False
    if p.op == "fld" or q.op == "fld":
        return p is not q
    if p.op == "const" and q.op == "const":
        return cval(p) != cval(q)
    if p.op == "enum" and q.op == "enum":
        return True
    ks, ls = (p.args[0], q.args[0]) if p.op == "tuple" and q.op == "tuple" else ((), ())
    return len(ks) == len(ls) and any(apart(x, y) for x, y in zip(ks, ls))


def outer(r, n):
    """conditions of r outside all but its first n loops"""
    out = []
    for c in r.ctx:
        if c[0] == "each":
            if not n:
                break
            n -= 1
        elif c[0] == "when":
            out.append(c[1])
    return And(*out)


def commute(x, y, together, shared=0):
    """True: the order of two writes makes no difference; False: it does; None: not known"""
    if And(outer(x, shared), outer(y, shared)) is FALSE:
        return True
    for p, q in zip(x.path, y.path):
        if apart(p, q):
            return True
        if p is not q:
            break
    if x.action in SEQ and y.action in SEQ and x.path == y.path:
        return False
    if x.action == y.action and x.action in COMMUTING:
        return True
    if x.action == y.action == "set" and len(x.path) == len(y.path) and x.path[:-1] == y.path[:-1] and x.value is not y.value and x.path:
        p, q = x.path[-1], y.path[-1]
        if is_bool(p) and is_bool(q) and together and can_both(p, q):
            return False
    if {x.action, y.action} <= {"set", "update", "setdefault"} and "update" in (x.action, y.action):
        if x.action == y.action:
            return False if x.path == y.path else None
        u, s = (x, y) if x.action == "update" else (y, x)
        if len(s.path) == len(u.path) + 1:
            return False
        return None
    return None


def can_both(p, q):
    """two conditions on the same quantities that can hold together"""
    F = BoolForm(Cfg())
    n = F.build(And(p, q))
    ks = sorted(keys_of(n), key=str)
    if not all(F.terms[k].op in ("lt", "eq") or F.terms[k].op in ("sym", "index", "attr") for k in ks):
        return False
    regs = [F.regions(k) for k in ks]
    z = 1
    for r in regs:
        z *= len(r)
    return 0 < z <= 5000 and any(F.ev(n, dict(zip(ks, c))) for c in product(*regs))


INPLACE = {"add", "sub", "or", "and", "mul", "iadd", "isub", "ior", "iand", "imul"}


def settle(ds):
    """a component with anything unaligned in it decides nothing"""
    s = [d for d in ds if d.k == "S"]
    return s if s else ds


def recT(r):
    t = ent(r.path, r.action, r.value if r.value is not None else NONE)
    c = And(*r.conds())
    return mk("when", c, (t,)) if c is not TRUE else t


NOT_INTERPRETED = {"opaque", "unbound", "noexit", "wdom"}


def interpreted(t):
    return not any(x.op in NOT_INTERPRETED for x in walk(t))


def size_guard(c, cfg):
    F = BoolForm(cfg)
    n = F.build(c)
    return any(is_size(x) or is_size(strip_cast(x)) for k in keys_of(n) for x in walk(F.terms[k]))


def flat_cases(t, c=TRUE):
    if t.op == "ite":
        return flat_cases(t.args[1], And(c, t.args[0])) + flat_cases(t.args[2], And(c, Not(t.args[0])))
    return [(c, t)]


def group(cs):
    out = {}
    for c, v in cs:
        out[v] = Or(out[v], c) if v in out else c
    return out


def static_key(k):
    xs = norm._static_list(k) if k.op == "log" else None
    if xs is not None and all(x.op == "const" for x in xs):
        return tup(*xs)
    return k


def basic_key(k):
    """an integer or a slice with constant ends (takes one dimension)"""
    if k.op == "slice":
        return all(z is NONE or is_num(z) for z in k.args)
    return is_num(k)


def canon_ratio(t):
    """guarded divisions in one form: safediv(num, den, where, default)"""
    if t.op == "ite" and not is_bool(t):
        c, x, y = t.args
        if x.op == "div" and (is_num(y) or y.op == "call" and y.args[0] in ("np.zeros", "np.zeros_like")) and mentions(c, x.args[1]):
            return mk("safediv", x.args[0], x.args[1], c, zero_of(y))
        if y.op == "div" and (is_num(x) or x.op == "call" and x.args[0] in ("np.zeros", "np.zeros_like")) and mentions(c, y.args[1]):
            return mk("safediv", y.args[0], y.args[1], Not(c), zero_of(x))
    if t.op == "call" and t.args[0] == "np.where" and len(t.args[1]) == 3:
        c, x, y = t.args[1]
        if x.op == "div" and is_num(y):
            d = x.args[1]
            if d.op == "call" and d.args[0] == "np.where" and d.args[1][0] is c:
                d = d.args[1][1]
            return mk("safediv", x.args[0], d, c, y)
    if t.op == "lt" or t.op == "not":
        return bitplane(t) or t
    if t.op == "call" and t.args[0] == "safediv" and len(t.args[1]) == 4:
        return mk("safediv", *[zero_of(x) if i == 3 else x for i, x in enumerate(t.args[1])])
    return t


def zero_of(y):
    if y.op == "call" and y.args[0] in ("np.zeros", "np.zeros_like"):
        d = dict(y.args[2]).get("dtype")
        if d is None or d.op == "ext" and d.args[0] in ("np.float64", "float", "np.double"):
            return C(0)
    if is_num(y) and cval(y) == 0:
        return C(0)
    return y


def mentions(c, d):
    return any(x is d for x in walk(c)) or any(has(c, x) for x in ([d] if d.op != "add" else d.args[0]))


def bitplane(t):
    """(flags & F) > 0 of an array of or-ed flags -> the cells where F was set"""
    if t.op == "lt" and is_const(t.args[0], 0):
        x = t.args[1]
    elif t.op == "not" and t.args[0].op == "eq":
        p, q = t.args[0].args
        x = q if is_num(p) and cval(p) == 0 else p if is_num(q) and cval(q) == 0 else None
    else:
        return None
    if x is None:
        return None
    if x.op == "call" and x.args[0] == "np.bitwise_and" and len(x.args[1]) == 2:
        p, q = x.args[1]
    elif x.op == "and" and len(x.args[0]) == 2:
        p, q = x.args[0]
    else:
        return None
    if p.op != "log":
        p, q = q, p
    q = flag_of(q)
    if p.op != "log" or q is None:
        return None
    base, es = log_parts(p)
    if not (base.op == "call" and base.args[0] == "np.zeros"):
        return None

    bad = []

    def rec(es):
        out = []
        for e in es:
            if e.op == "when":
                out.extend(when(e.args[0], rec(e.args[1])))
            elif e.op == "each":
                out.extend(each(e.args[0], e.args[1], rec(e.args[2])))
            else:
                fl = flag_of(e.args[2])
                if e.args[1] != "or" or fl is None:
                    bad.append(e)
                elif fl is q:
                    out.append(ent(e.args[0], "set", TRUE))
        return tuple(out)

    r = rec(es)
    if bad:
        return None
    nb = call("np.zeros", base.args[1], (("dtype", mk("ext", "np.bool_")),))
    return mk("plane", canon_plane(log(nb, r)))


def flag_of(t):
    if t.op == "call" and t.args[0] in ("np.uint8", "int") and t.args[1]:
        t = t.args[1][0]
    if t.op == "attr" and t.args[1] == "value":
        t = t.args[0]
    return t if t.op in ("enum", "const") else None


def canon_plane(t):
    """x[i, mask] = True on a zero boolean array  ->  x[i] = mask"""
    base, es = log_parts(t)
    if t.op != "log" or not (base.op == "call" and base.args[0] == "np.zeros"):
        return t
    dt = kwarg(base, "dtype")
    if dt is None or dt_class(dt) != ("bool",):
        return t

    def rec(es):
        out = []
        for e in es:
            if e.op == "when":
                out.extend(when(e.args[0], rec(e.args[1])))
            elif e.op == "each":
                out.extend(each(e.args[0], e.args[1], rec(e.args[2])))
            else:
                path, act, val = e.args
                if len(path) == 1 and path[0].op == "tuple" and act in ("set", "or"):
                    ks = path[0].args[0]
                    if ks[-1] is norm.FULL:
                        ks = ks[:-1]
                    if is_bool(ks[-1]) and val is TRUE:
                        val = ks[-1]
                        ks = ks[:-1]
                    act = "set"
                    path = (ks[0] if len(ks) == 1 else tup(*ks),)
                out.append(ent(path, act, val))
        return tuple(out)

    return log(base, rec(es))
