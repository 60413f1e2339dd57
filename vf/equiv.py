"""Compares an entry point with its reference definition."""
from .ir import *
from .norm import *
from .interp import analyze, flatten, Rec
from .cmp import Cmp, Cfg, Diff, diff_bool, settle, sh, recT
from . import norm

SAT, VIO, UND = "satisfied", "violated", "undecided"


class Ob:
    """one decided (or undecided) obligation"""

    def __init__(self, name, verdict, where="", detail=""):
        self.name, self.verdict, self.where, self.detail = name, verdict, where, detail

    def __repr__(self):
        return f"{self.verdict:9} {self.name} {self.where} {self.detail}"


def verdict(ds):
    if not ds:
        return SAT
    if any(d.k == "D" for d in ds):
        return VIO
    return UND


def detail(ds):
    ds = [d for d in ds if d.k == "D"] or ds
    return " ; ".join(repr(d) for d in ds[:3])


PURE_PREFIX = ("os.path.", "glob.", "np.", "pc.", "pa.", "shapely.", "math.", "operator.", "itertools.", "functools.")
PURE = {
    "len", "range", "int", "float", "str", "bool", "list", "tuple", "dict", "set", "zip", "enumerate", "sorted",
    "isinstance", "max", "min", "sum", "abs", "repr", "round", "any", "all", "map", "filter", "reversed", "type",
    "hasattr", "getattr", "iter", "next", "id", "safediv", "frozenset", "callable", "issubclass", "hash",
    "m.get", "m.items", "m.keys", "m.values", "m.format", "m.join", "m.strip", "m.split", "m.lower", "m.upper",
    "m.startswith", "m.endswith", "m.replace", "m.index", "m.count", "m.copy", "m.exists", "m.is_file", "m.is_dir",
    "m.astype", "m.sum", "m.any", "m.all", "m.mean", "m.max", "m.min", "m.reshape", "m.tolist", "m.to_numpy",
    "m.flatten", "m.argsort", "m.item", "m.cumsum", "m.take", "m.field", "m.as_py", "m.column", "m.diagonal",
    "m.to_pylist", "m.sort_by", "m.append_column", "m.set_column", "m.select", "m.isin", "pathlib.Path",
    "json.load", "json.loads", "m.slice", "m.drop_null", "m.head", "m.tail", "m.rglob", "m.filter", "m.get_all_fragments", "m.count_rows", "m.count_tables",
    "copy.deepcopy", "m.argmax", "m.transpose", "m.squeeze", "m.ravel", "m.union", "m.intersection", "m.difference",
    "m.issubset", "m.cast", "m.rename_columns", "m.drop", "m.equals", "m.isdigit", "m.encode", "m.decode", "m.prod",
    "re.search", "re.match", "re.fullmatch", "re.findall", "re.compile", "re.sub", "re.split", "m.group", "m.span",
    "m.glob", "m.nonzero", "m.round", "m.repeat", "m.find", "m.rfind", "dataclasses.asdict", "super", "object", "os.listdir", "os.fspath", "os.scandir", "os.stat", "os.getcwd", "os.walk",
    "collections.defaultdict", "collections.Counter", "m.most_common", "copy.copy", "m.argmin", "m.clip", "m.removeprefix",
    "m.hex", "m.rstrip", "m.lstrip", "m.title", "m.get_fragments", "m.head", "m.to_table", "m.to_batches", "m.splitlines", "m.isalpha", "m.with_suffix", "m.stem", "m.resolve",
    "m.argpartition", "m.swapaxes", "m.bit_count", "m.is_integer", "m.conjugate", "m.view", "m.combine_chunks",
    "m.setdefault", "m.append", "m.extend", "m.add", "m.update", "m.pop", "m.insert", "m.remove", "m.clear", "m.sort", "m.discard",
}

# changes of containers: recorded as writes to the container
MUTATORS = {"m." + x for x in ("setdefault", "append", "extend", "add", "update", "pop", "insert", "remove", "clear", "sort", "discard")}
PURE |= {"m." + x for x in (
    "trace", "dot", "std", "var", "ptp", "searchsorted", "compress", "choose", "fill_null", "is_null", "is_valid", "unique", "value_counts", "dictionary_encode",
    "flatten", "to_pandas", "to_pydict", "num_rows", "column_names", "field_names", "remove_column", "add_column", "group_by", "aggregate", "join_path", "joinpath",
    "with_name", "relative_to", "is_absolute", "as_posix", "absolute", "expanduser", "iterdir", "samefile", "stat", "isnumeric", "isspace", "islower", "isupper", "isalnum",
    "partition", "rpartition", "rsplit", "zfill", "ljust", "rjust", "center", "casefold", "capitalize", "swapcase", "translate", "expandtabs", "removesuffix", "isdecimal",
    "symmetric_difference", "issuperset", "isdisjoint", "elements", "total", "tobytes", "copy", "popcount", "bit_length", "as_integer_ratio", "from_iterable", "total_seconds",
    "isoformat", "nbytes", "get_total_buffer_size", "empty_table", "read_row_group", "names", "to_string", "argwhere", "cumprod", "outer", "inner", "reduce", "accumulate", "ravel",
    "groups", "groupdict", "start", "end", "isidentifier", "splitlines", "format_map", "index_in", "is_in", "dropna", "equals", "validate", "slice", "schema_arrow")}


def is_effect(fname):
    if fname in PURE or fname.startswith(PURE_PREFIX):
        return fname.startswith("np.") and fname.endswith(".at")
    return True


def conds_of(ctx, ok):
    return And(*[c[1] for c in ctx if c[0] == "when" or (ok and c[0] == "ok")])


class EvRec(Rec):
    __slots__ = ("ev",)


def event_recs(S, kinds, pred, ok):
    out = []
    for e in S.events:
        if e.kind not in kinds or not isinstance(e.term, T):
            continue
        if not pred(e):
            continue
        ctx = tuple(c for c in e.ctx if c[0] in ("when", "each") or (ok and c[0] == "ok"))
        ctx = tuple(("when", c[1]) if c[0] == "ok" else c for c in ctx)
        tr = tuple(c[1] if isinstance(c[1], (str, tuple)) else show(c[1]) for c in e.ctx if c[0] in ("try", "except"))
        r = EvRec(ctx, (), e.kind + ":" + (e.term.args[0] if e.term.op == "call" else e.term.op) + repr(tr), e.term)
        r.ev = e
        out.append(r)
    return out


def exc_name(t):
    if t.op == "call":
        return t.args[0]
    if t.op == "obj":
        return t.args[0]
    if t.op in ("ext", "cls"):
        return t.args[0]
    return t.op


class Equiv:
    def __init__(self, ref, repo):
        self.ref, self.repo = ref, repo
        self.cache = {}

    def pair(self, qual, cls=None, prims=(), args=None):
        key = (qual, cls, tuple(prims), repr(args))
        if key in self.cache:
            return self.cache[key]
        norm.KINDS.clear()
        fr, fa = self.ref.func(qual), self.repo.func(qual)
        if fr is None:
            raise LookupError("reference lacks " + qual)
        if fa is None:
            raise LookupError("anchor vanished: " + qual)
        out = []
        for R, f in ((self.ref, fr), (self.repo, fa)):
            c = R.cls(cls) if cls else f.cls
            out.append(analyze(R, f, cls=c, prims=prims, args=args))
        self.cache[key] = tuple(out)
        return self.cache[key]

    def cmp(self, A, B, cfg):
        return Cmp(cfg, A.phidef, B.phidef)

    def ret(self, qual, cfg=None, **kw):
        A, B = self.pair(qual, **kw)
        cfg = cfg or Cfg()
        X = self.cmp(A, B, cfg)
        a, b = oned(A.ret, cfg), oned(B.ret, cfg)
        obs = []
        where = f"{B.func.file}:{B.func.node.lineno} ({B.func.qual})"
        if a.op == "tuple" and b.op == "tuple" and len(a.args[0]) == len(b.args[0]):
            for i, (x, y) in enumerate(zip(a.args[0], b.args[0])):
                ds = settle(X.diff(x, y))
                obs.append(Ob(f"{short(qual)} result[{i}]", verdict(ds), where, detail(ds)))
            return obs
        ds = X.diff(a, b)
        obs.append(Ob(f"{short(qual)} result", verdict(ds), where, detail(ds)))
        return obs

    def mut(self, qual, params=None, cfg=None, **kw):
        A, B = self.pair(qual, **kw)
        cfg = cfg or Cfg()
        X = self.cmp(A, B, cfg)
        where = f"{B.func.file}:{B.func.node.lineno} ({B.func.qual})"
        obs = []
        for k in A.final:
            if params is not None and k not in params:
                continue
            a, b = A.final[k], B.final.get(k)
            if b is None:
                continue
            ia, ib = A.init.get(k), B.init.get(k)
            if a is ia and b is ib:
                continue
            ds = X.diff(oned(a, cfg), oned(b, cfg))
            obs.append(Ob(f"{short(qual)} effect on {k}", verdict(ds), where, detail(ds)))
        return obs

    def raises(self, qual, cfg=None, **kw):
        A, B = self.pair(qual, **kw)
        cfg = cfg or Cfg()
        X = self.cmp(A, B, cfg)
        obs = []
        res = []
        for ok in (False, True):
            ga, gb = raise_groups(A, ok, cfg), raise_groups(B, ok, cfg)
            res.append((ga, gb))
        where = f"{B.func.file}:{B.func.node.lineno} ({B.func.qual})"
        names = sorted(set(res[0][0][0]) | set(res[0][1][0]))
        for n in names:
            best = None
            for ga, gb in res:
                a, b = ga[0].get(n, FALSE), gb[0].get(n, FALSE)
                ds = diff_bool(a, b, X, 0)
                if not ds:
                    best = []
                    break
                if best is None or any(d.k == "S" for d in ds):
                    best = ds
            obs.append(Ob(f"{short(qual)} raises {short(n)} exactly when", verdict(best), where, detail(best)))
        best = None
        for ga, gb in res:
            ds = X.records(ga[1], gb[1], 0, NONE, NONE)
            if not ds:
                best = []
                break
            if best is None or any(d.k == "S" for d in ds):
                best = ds
        if res[0][0][1] or res[0][1][1]:
            obs.append(Ob(f"{short(qual)} raises in loops", verdict(best), where, detail(best)))
        return obs

    def effects(self, qual, pred=None, cfg=None, **kw):
        A, B = self.pair(qual, **kw)
        cfg = cfg or Cfg()
        X = self.cmp(A, B, cfg)
        where = f"{B.func.file}:{B.func.node.lineno} ({B.func.qual})"
        pred = pred or (lambda e: e.term.op == "call" and is_effect(e.term.args[0]))
        best = None
        n = 0
        for ok in (False, True):
            ra = event_recs(A, ("call",), pred, ok)
            rb = event_recs(B, ("call",), pred, ok)
            n = len(ra)
            ds = X.records(ra, rb, 0, NONE, NONE)
            if not ds:
                best = []
                break
            if best is None or any(d.k == "S" for d in ds) and not any(d.k == "D" for d in ds):
                best = ds
        if n == 0 and not best:
            return []
        return [Ob(f"{short(qual)} effects ({n})", verdict(best), where, detail(best))]

    def all(self, qual, cfg=None, **kw):
        return self.ret(qual, cfg, **kw) + self.mut(qual, None, cfg, **kw) + self.raises(qual, cfg, **kw) + self.effects(qual, None, cfg, **kw)


def short(q):
    return q[len("valor_lite."):] if q.startswith("valor_lite.") else q


def raise_groups(S, ok, cfg):
    flat, loops = {}, []
    for e in S.events:
        if e.kind != "raise":
            continue
        n = exc_name(e.term) if isinstance(e.term, T) else "?"
        ctx = tuple(c if c[0] != "ok" else ("when", c[1]) for c in e.ctx if c[0] in ("when", "each") or (ok and c[0] == "ok"))
        tr = tuple(str(c[1]) for c in e.ctx if c[0] in ("try", "except"))
        if any(c[0] == "each" for c in ctx) or tr:
            loops.append(Rec(ctx, (), "raise:" + n + repr(tr), NONE))
        else:
            c = oned(And(*[c[1] for c in ctx]), cfg)
            flat[n] = Or(flat[n], c) if n in flat else c
    return flat, loops


def oned(t, cfg):
    if not cfg.oned:
        return t
    m = {}
    for x in walk(t):
        if x.op == "attr" and x.args[1] == "size" and x.args[0].op == "sym" and x.args[0].args[0] in cfg.oned:
            m[x] = Len(x.args[0])
    return subst(t, m) if m else t
