"""Mutation survey: how often does the comparison decide a one-point change?

usage: python3 tools/mutate.py [qual-prefix] [-k kind,kind] [-n per-function-cap]
Prints the mutants that are undecided or missed.  The operators range from the
classic ones (comparison, arithmetic, constants, dropped statements) to the
changes a subtle defect is made of: another variable, a truncation, a narrower
type, a rounded value, an extra or missing guard, swapped or moved statements,
break for continue, a fixed index, dropped elements, another reduction.
"""
import ast, copy, sys, os, signal, argparse
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from multiprocessing import Pool
from vf.front import Repo, Module
from vf.judge import Judge

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
SWAPNAME = {"max": "min", "min": "max", "any": "all", "all": "any", "argmax": "argmin", "argmin": "argmax", "sum": "max", "unique": "sort",
            "zeros": "ones", "ones": "zeros", "append": "extend", "int64": "int32", "float64": "float32", "uint64": "uint32", "cumsum": "cumprod",
            "logical_and": "logical_or", "logical_or": "logical_and", "mean": "max", "zeros_like": "ones_like", "ones_like": "zeros_like"}


def skipped(fn):
    s = set()
    for n in ast.walk(fn):
        for x in (getattr(n, "annotation", None), getattr(n, "returns", None)):
            if x is not None:
                s |= {id(y) for y in ast.walk(x)}
        if isinstance(n, ast.Raise):
            s |= {id(y) for y in ast.walk(n)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            s.add(id(n.value)); s.add(id(n))
    return s


def bodies(fn):
    for p in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(p, f, None)
            if isinstance(b, list):
                yield p, b


def u(n, k=60):
    return ast.unparse(n)[:k]


def mutants(fn):
    """(description, kind, edit(tree)) where edit works on a fresh copy found by node index"""
    out = []
    nodes = list(ast.walk(fn))
    idx = {id(n): i for i, n in enumerate(nodes)}
    skip = skipped(fn)
    params = [a.arg for a in fn.args.args + fn.args.kwonlyargs if a.arg != "self"]
    stored = [n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]
    names = list(dict.fromkeys(params + stored))
    parent = {}
    for n in nodes:
        for c in ast.iter_child_nodes(n):
            parent[id(c)] = n

    def add(n, kind, desc, f):
        i = idx[id(n)]
        out.append((f"{getattr(n, 'lineno', 0)} {kind} {desc}", kind, (i, f)))

    def repl(n, kind, desc, mkf):
        """replace expression n by mkf(copy of n)"""
        p = parent[id(n)]
        for fld, v in ast.iter_fields(p):
            if v is n:
                add(p, kind, desc, lambda q, fld=fld: setattr(q, fld, mkf(getattr(q, fld))))
            elif isinstance(v, list) and any(x is n for x in v):
                j = next(j for j, x in enumerate(v) if x is n)
                add(p, kind, desc, lambda q, fld=fld, j=j: getattr(q, fld).__setitem__(j, mkf(getattr(q, fld)[j])))

    for n in nodes:
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            add(n, "cmp", u(n), lambda q: q.ops.__setitem__(0, CMP[type(q.ops[0])]()))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            if not (isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(n, "bin", u(n), lambda q: setattr(q, "op", BIN[type(q.op)]()))
        elif isinstance(n, ast.BoolOp):
            add(n, "boolop", u(n), lambda q: setattr(q, "op", ast.And() if isinstance(q.op, ast.Or) else ast.Or()))
            for j in range(len(n.values)):
                add(n, "dropcond", f"{u(n)} #{j}", lambda q, j=j: q.values.__delitem__(j) if len(q.values) > 2 else q.values.__setitem__(j, copy.deepcopy(q.values[1 - j])))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
            repl(n, "unary", u(n), lambda x: x.operand)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (bool, int, float)):
            add(n, "const", repr(n.value), lambda q: setattr(q, "value", (not q.value) if isinstance(q.value, bool) else q.value + 1))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and not isinstance(parent.get(id(n)), ast.JoinedStr) and len(n.value) < 30:
            add(n, "str", repr(n.value), lambda q: setattr(q, "value", q.value + "_x"))
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    add(n, "dropkw", f"{k.arg} in {u(n)}", lambda q, a=k.arg: setattr(q, "keywords", [z for z in q.keywords if z.arg != a]))
            if len(n.args) == 2:
                add(n, "swaparg", u(n), lambda q: q.args.reverse())
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "int", "float", "set", "abs", "list", "max", "min", "reversed", "round") and len(n.args) >= 1:
                repl(n, "unwrap", u(n), lambda x: x.args[0])
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            if isinstance(n.slice, ast.Name):
                add(n, "fixindex", u(n), lambda q: setattr(q, "slice", ast.Constant(0)))
            if isinstance(n.slice, ast.Slice) or (isinstance(n.slice, ast.Tuple) and any(isinstance(z, ast.Slice) for z in n.slice.elts)):
                pass
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                add(n, "slice", u(n), lambda q: setattr(q, "lower", None))
            if n.upper is not None:
                add(n, "slice", u(n), lambda q: setattr(q, "upper", None))
        if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
            nm = n.attr if isinstance(n, ast.Attribute) else n.id
            if nm in SWAPNAME:
                add(n, "func", u(n), lambda q, nm=nm: setattr(q, "attr" if isinstance(q, ast.Attribute) else "id", SWAPNAME[nm]))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1:
            o = names[(names.index(n.id) + 1) % len(names)]
            add(n, "var", f"{n.id} -> {o} in {u(parent[id(n)])}", lambda q, o=o: setattr(q, "id", o))
        if isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and len(n.elts) > 2:
            add(n, "dropelt", u(n), lambda q: q.elts.pop())
        if isinstance(n, ast.Dict) and len(n.keys) > 1:
            add(n, "dropelt", u(n), lambda q: (q.keys.pop(), q.values.pop()))
        if isinstance(n, ast.For) or isinstance(n, ast.comprehension):
            W = lambda t, s: ast.parse(s).body[0].value
            repl(n.iter, "trunc", u(n.iter), lambda x: ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [x], []), ast.Slice(None, ast.Constant(100), None), ast.Load()))
            repl(n.iter, "skipfirst", u(n.iter), lambda x: ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [x], []), ast.Slice(ast.Constant(1), None, None), ast.Load()))
        if isinstance(n, ast.If):
            if not n.orelse and len(params):
                pv = params[-1]
                add(n, "guard", u(n.test), lambda q, pv=pv: setattr(q, "test", ast.BoolOp(ast.And(), [q.test, ast.Compare(ast.Name(pv, ast.Load()), [ast.NotEq()], [ast.Constant(7)])])))
            add(n, "always", u(n.test), lambda q: setattr(q, "test", ast.Constant(True)))
            add(n, "never", u(n.test), lambda q: setattr(q, "test", ast.Constant(False)))
        if isinstance(n, ast.IfExp):
            repl(n, "arm", u(n), lambda x: x.body)
            repl(n, "arm2", u(n), lambda x: x.orelse)
        if isinstance(n, ast.Call):
            nm = ast.unparse(n.func)
            last = nm.split(".")[-1]
            have = {k.arg for k in n.keywords}
            ks = []
            if nm.startswith(("np.", "pc.", "pa.", "pq.")) or isinstance(n.func, ast.Attribute) and last in ("sum", "any", "all", "max", "min", "mean", "argmax", "argsort", "cumsum", "flatten", "reshape", "round", "astype"):
                ks = [("axis", "0"), ("order", "'F'"), ("keepdims", "True"), ("dtype", "np.float32"), ("kind", "'heapsort'"), ("where", "None"), ("initial", "1")]
            elif nm in ("sorted", "max", "min"):
                ks = [("reverse", "True"), ("key", "str")]
            elif nm in ("zip",):
                ks = [("strict", "True")]
            elif nm == "enumerate":
                ks = [("start", "1")]
            elif nm in ("open",):
                ks = [("encoding", "'ascii'"), ("errors", "'ignore'"), ("newline", "''")]
            elif nm == "json.dump":
                ks = [("default", "str"), ("sort_keys", "True")]
            else:
                ks = [("limit", "5")]
            for k, v in ks:
                if k not in have:
                    add(n, "addkw", f"{k}={v} in {u(n)}", lambda q, k=k, v=v: q.keywords.append(ast.keyword(k, ast.parse(v).body[0].value)))
            if isinstance(n.func, ast.Attribute) and not isinstance(parent.get(id(n)), ast.Expr) and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "pc", "pa", "pq", "json", "os", "math", "cls", "self", "Metric")):
                repl(n, "dropmeth", u(n), lambda x: x.func.value)
            for j, a in enumerate(n.args):
                if isinstance(a, ast.Name) and not isinstance(parent.get(id(n)), ast.Raise):
                    add(n, "copyarg", f"{a.id} in {u(n)}", lambda q, j=j: q.args.__setitem__(j, ast.Call(ast.Attribute(q.args[j], "copy", ast.Load()), [], [])))
            for j, k in enumerate(n.keywords):
                if isinstance(k.value, ast.Name):
                    add(n, "copyarg", f"{k.value.id} in {u(n)}", lambda q, j=j: setattr(q.keywords[j], "value", ast.Call(ast.Attribute(q.keywords[j].value, "copy", ast.Load()), [], [])))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
            others = sorted({z.attr for z in nodes if isinstance(z, ast.Attribute) and isinstance(z.value, ast.Name) and z.value.id == n.value.id and z.attr != n.attr})
            if others and n.value.id not in ("np", "pc", "pa", "pq", "json", "os", "math"):
                add(n, "attr", f"{u(n)} -> {others[0]}", lambda q, o=others[0]: setattr(q, "attr", o))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 3:
            for d in (2, -1):
                o = names[(names.index(n.id) + d) % len(names)]
                if o != n.id:
                    add(n, "var2", f"{n.id} -> {o} in {u(parent[id(n)])}", lambda q, o=o: setattr(q, "id", o))
        if isinstance(n, ast.If) and n.orelse:
            add(n, "elsedrop", u(n.test), lambda q: setattr(q, "orelse", []))
        if isinstance(n, ast.For):
            add(n, "endearly", u(n.iter), lambda q: q.body.append(ast.Break()))
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 30 and not isinstance(parent.get(id(n)), ast.JoinedStr):
            others = sorted({z.value for z in nodes if isinstance(z, ast.Constant) and isinstance(z.value, str) and len(z.value) < 30 and z.value != n.value})
            if others:
                add(n, "str2", f"{n.value!r} -> {others[0]!r}", lambda q, o=others[0]: setattr(q, "value", o))
        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.BinOp, ast.Call)) and isinstance(n.targets[0], ast.Name):
            add(n, "round", u(n), lambda q: setattr(q, "value", ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "round", ast.Load()), [q.value, ast.Constant(6)], [])))
            add(n, "narrow", u(n), lambda q: setattr(q, "value", ast.Call(ast.Attribute(q.value, "astype", ast.Load()), [ast.Constant("float16")], [])))
    for p, b in bodies(fn):
        for j, s in enumerate(b):
            if id(s) in skip:
                continue
            if isinstance(s, (ast.AugAssign, ast.Expr, ast.If, ast.Continue, ast.Raise)) or (isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Subscript, ast.Attribute))):
                fld = next(f for f in ("body", "orelse", "finalbody") if getattr(p, f, None) is b)
                add(p, "del", u(s), lambda q, fld=fld, j=j: getattr(q, fld).__setitem__(j, ast.Pass()))
                if isinstance(p, (ast.For, ast.While)) and j == len(b) - 1 and j > 0:
                    pp = next(((a, bb) for a, bb in bodies(fn) if p in bb), None)
                    if pp:
                        a, bb = pp
                        f2 = next(f for f in ("body", "orelse", "finalbody") if getattr(a, f, None) is bb)
                        k = bb.index(p)

                        def out_(q, f2=f2, k=k):
                            loop = getattr(q, f2)[k]
                            st = loop.body.pop()
                            getattr(q, f2).insert(k + 1, st)
                        add(a, "dedent", u(s), out_)
            fld0 = next((f for f in ("body", "orelse", "finalbody") if getattr(p, f, None) is b), None)
            if isinstance(s, ast.AugAssign):
                add(p, "augset", u(s), lambda q, fld=fld0, j=j: getattr(q, fld).__setitem__(j, ast.Assign([getattr(q, fld)[j].target], getattr(q, fld)[j].value, lineno=1)))
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Subscript, ast.Name)) and not isinstance(s.value, ast.Constant):
                add(p, "setaug", u(s), lambda q, fld=fld0, j=j: getattr(q, fld).__setitem__(j, ast.AugAssign(getattr(q, fld)[j].targets[0], ast.Add(), getattr(q, fld)[j].value, lineno=1)))
            if isinstance(s, ast.Assign) and j + 1 < len(b) and isinstance(b[j + 1], ast.For):
                def into(q, fld=fld0, j=j):
                    bb = getattr(q, fld)
                    st = bb[j]
                    bb[j + 1].body.insert(0, st)
                    bb[j] = copy.deepcopy(st)
                add(p, "reinit", u(s), into)
            if isinstance(p, ast.For) and isinstance(s, ast.Assign) and isinstance(s.value, (ast.List, ast.Dict, ast.Constant, ast.Call)):
                pp = next(((a, bb) for a, bb in bodies(fn) if any(z is p for z in bb)), None)
                if pp:
                    a, bb = pp
                    f2 = next(f for f in ("body", "orelse", "finalbody") if getattr(a, f, None) is bb)
                    k = next(i for i, z in enumerate(bb) if z is p)

                    def hoist(q, f2=f2, k=k, j=j):
                        loop = getattr(q, f2)[k]
                        st = loop.body[j]
                        loop.body[j] = ast.Pass()
                        getattr(q, f2).insert(k, st)
                    add(a, "hoist", u(s), hoist)
            if isinstance(s, ast.Continue):
                fld = next(f for f in ("body", "orelse", "finalbody") if getattr(p, f, None) is b)
                add(p, "break", u(p), lambda q, fld=fld, j=j: getattr(q, fld).__setitem__(j, ast.Break()))
            if j + 1 < len(b) and not isinstance(s, (ast.Return, ast.Raise)) and not isinstance(b[j + 1], ast.Return):
                w = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                w2 = {x.id for x in ast.walk(b[j + 1]) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                r2 = {x.id for x in ast.walk(b[j + 1]) if isinstance(x, ast.Name)}
                r1 = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
                fld = next(f for f in ("body", "orelse", "finalbody") if getattr(p, f, None) is b)

                def sw(q, fld=fld, j=j):
                    bb = getattr(q, fld)
                    bb[j], bb[j + 1] = bb[j + 1], bb[j]
                if not (w & r2) and (w2 & r1 or isinstance(s, (ast.Expr, ast.If, ast.For)) and isinstance(b[j + 1], (ast.Expr, ast.If, ast.For))):
                    add(p, "swapstmt", u(s) + " <> " + u(b[j + 1]), sw)
    return out


_base = {}


def load():
    if not _base:
        _base["ref"] = Repo(os.path.join(ROOT, "ref"))
        _base["base"] = Repo("/repo/src")
    return _base["ref"], _base["base"]


class TooLong(Exception):
    pass


def alarm(*_):
    raise TooLong()


def one(job):
    qual, num = job
    ref, base = load()
    f = base.func(qual)
    desc, kind, (i, edit) = mutants(f.node)[num]
    r = Repo.__new__(Repo)
    r.root = base.root
    r.modules = dict(base.modules)
    m = base.modules[f.module.name]
    tree = copy.deepcopy(m.tree)
    tgt = next(n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and n.name == f.name and n.lineno == f.node.lineno)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(120)
    try:
        edit(list(ast.walk(tgt))[i])
        ast.fix_missing_locations(tree)
        m2 = Module.__new__(Module)
        m2.__dict__.update(m.__dict__)
        m2.tree = tree
        m2.imports, m2.funcs, m2.classes, m2.consts = {}, {}, {}, {}
        m2._collect(tree.body)
        r.modules[m.name] = m2
        obs = Judge(None, ref=ref, repo=r).judge(qual)
    except TooLong:
        return qual, kind, "timeout", desc, ""
    except Exception as e:
        return qual, kind, "crash", desc, f"{type(e).__name__} {e}"
    finally:
        signal.alarm(0)
    vs = [o.verdict for o in obs]
    v = "violated" if "violated" in vs else "undecided" if "undecided" in vs else "satisfied"
    return qual, kind, v, desc, next((o.name + " " + o.detail for o in obs if o.verdict == v and v != "satisfied"), "")


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prefix", nargs="?", default="")
    ap.add_argument("-k", default="")
    ap.add_argument("-n", type=int, default=0)
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    ref, base = load()
    jobs = []
    for q in sorted({f.qual for f in base.all_funcs() if f.qual.startswith("valor_lite." + a.prefix)}):
        ms = list(enumerate(mutants(base.func(q).node)))
        if a.k:
            ms = [x for x in ms if x[1][1] in a.k.split(",")]
        if a.n and len(ms) > a.n:
            ms = ms[::max(1, len(ms) // a.n)]
        jobs += [(q, i) for i, _ in ms]
    print(len(jobs), "mutants", flush=True)
    tot, kinds = {}, {}
    with Pool(a.j, maxtasksperchild=400) as p:
        for qual, kind, v, d, e in p.imap_unordered(one, jobs, chunksize=4):
            tot[v] = tot.get(v, 0) + 1
            kinds.setdefault(kind, {}).setdefault(v, 0)
            kinds[kind][v] += 1
            if v != "violated":
                print(v, "|", qual[11:], "|", d, "|", e[:300], flush=True)
    for k in kinds:
        print("KIND", k, kinds[k])
    print("TOTAL", tot)
