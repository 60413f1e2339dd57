"""Automatic behaviour-preserving rewritings of every function: none may be judged a violation.

usage: python3 tools/auto.py [qual-prefix] [-k kind] [-v]
"""
import ast, copy, os, random, sys, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(30000)
from multiprocessing import Pool
from vf.front import Repo, Module
from vf.judge import Judge

PURECALLS = {"len", "int", "float", "str", "bool", "max", "min", "sorted", "list", "set", "dict", "tuple", "range", "enumerate", "zip", "isinstance", "sum", "any", "all"}


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def has(n, *types):
    return any(isinstance(x, types) for x in ast.walk(n))


def blocks(f):
    nested = {id(x) for g in ast.walk(f) if isinstance(g, (ast.FunctionDef, ast.Lambda)) and g is not f for x in ast.walk(g)}
    for n in ast.walk(f):
        if id(n) in nested:
            continue
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, b


def pure(e):
    """evaluating e twice or earlier changes nothing"""
    for x in ast.walk(e):
        if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
            return False
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Name) and f.id in PURECALLS:
                continue
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "np":
                if any(k.arg == "out" for k in x.keywords):
                    return False
                continue
            if isinstance(f, ast.Attribute) and f.attr in ("sum", "astype", "any", "all", "max", "min", "copy", "keys", "values", "items", "to_numpy", "flatten", "get"):
                continue
            return False
    return True


def N(x, store=False):
    return ast.Name(x, ast.Store() if store else ast.Load())


# ---- every rewriting yields closures (description, fn(tree_func, module_tree) -> bool)
def rename(f, i):
    if i or has(f, ast.Global, ast.Nonlocal):
        return False
    loc = names(f, ast.Store) - set(params(f)) - {p for g in ast.walk(f) if isinstance(g, (ast.FunctionDef, ast.Lambda)) and g is not f for p in params(g)}
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and x.id in loc:
            x.id = x.id + "_"
        if isinstance(x, ast.ExceptHandler) and x.name in loc:
            x.name += "_"
    return bool(loc)


def invert(f, i):
    c = [x for x in ast.walk(f) if isinstance(x, ast.If) and x.orelse]
    if i >= len(c):
        return False
    n = c[i]
    n.test = ast.UnaryOp(ast.Not(), n.test)
    n.body, n.orelse = n.orelse, n.body
    return True


def else_return(f, i):
    c = []
    for p, b in blocks(f):
        for k, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and k + 1 < len(b):
                c.append((b, k))
    if i >= len(c):
        return False
    b, k = c[i]
    b[k].orelse = b[k + 1:]
    del b[k + 1:]
    return True


def guard_continue(f, i):
    """for ..: if c: BODY  ->  for ..: if not c: continue; BODY"""
    c = [x for x in ast.walk(f) if isinstance(x, ast.For) and len(x.body) == 1 and isinstance(x.body[0], ast.If) and not x.body[0].orelse]
    if i >= len(c):
        return False
    n = c[i]
    g = n.body[0]
    n.body = [ast.If(ast.UnaryOp(ast.Not(), g.test), [ast.Continue()], [])] + g.body
    return True


def comp_to_loop(f, i):
    c = []
    for p, b in blocks(f):
        for k, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp)):
                if isinstance(s, ast.Return) or len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    c.append((b, k))
    if i >= len(c):
        return False
    b, k = c[i]
    s = b[k]
    v = s.value
    t = s.targets[0].id if isinstance(s, ast.Assign) else "collected"
    if t in names(v):
        return False
    bound = {n for g in v.generators for n in names(g.target)}
    inner = bound & (names(f) - {x for x in bound if all(y in list(ast.walk(v)) for y in ast.walk(f) if isinstance(y, ast.Name) and y.id == x)})
    if inner:
        for x in ast.walk(v):
            if isinstance(x, ast.Name) and x.id in inner:
                x.id += "_c"
    if isinstance(v, ast.ListComp):
        init = ast.List([], ast.Load())
        body = ast.Expr(ast.Call(ast.Attribute(N(t), "append", ast.Load()), [v.elt], []))
    else:
        init = ast.Dict([], [])
        body = ast.Assign([ast.Subscript(N(t), v.key, ast.Store())], v.value)
    for g in reversed(v.generators):
        for c0 in reversed(g.ifs):
            body = ast.If(c0, [body], [])
        body = ast.For(g.target, g.iter, [body], [])
    out = [ast.Assign([N(t, True)], init), body]
    if isinstance(s, ast.Return):
        out.append(ast.Return(N(t)))
    b[k:k + 1] = out
    return True


def ifexp(f, i):
    c = []
    for p, b in blocks(f):
        for k, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                c.append((b, k))
    if i >= len(c):
        return False
    b, k = c[i]
    s = b[k]
    s1, s2 = copy.deepcopy(s), copy.deepcopy(s)
    s1.value, s2.value = s.value.body, s.value.orelse
    b[k] = ast.If(s.value.test, [s1], [s2])
    return True


def hoist(f, i):
    """an argument or operand becomes a named local just before"""
    c = []
    for p, b in blocks(f):
        for k, s in enumerate(b):
            if not isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) or s.value is None:
                continue
            for x in ast.walk(s.value):
                if isinstance(x, (ast.Call, ast.BinOp, ast.Compare, ast.Subscript)):
                    for fld in ("args", "keywords", "left", "right", "value", "slice"):
                        y = getattr(x, fld, None)
                        for z, put in (([(v.value, (v, "value", None)) for v in y] if fld == "keywords" else [(v, (y, j, None)) for j, v in enumerate(y)]) if isinstance(y, list) else [(y, (x, fld, None))] if isinstance(y, ast.expr) else []):
                            if isinstance(z, (ast.Call, ast.BinOp, ast.Subscript, ast.Compare, ast.Attribute)) and pure(z) and not isinstance(getattr(z, "ctx", None), ast.Store):
                                c.append((b, k, s, z, put))
    # only outside comprehensions and lambdas, and not under short circuits
    def inside(s, z):
        for x in ast.walk(s):
            if isinstance(x, (ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.Lambda, ast.BoolOp, ast.IfExp)) and any(y is z for y in ast.walk(x)):
                return True
        return False
    c = [q for q in c if not inside(q[2], q[3])]
    if i >= len(c):
        return False
    b, k, s, z, put = c[i]
    nm = "hoisted_value"
    if isinstance(put[0], list):
        put[0][put[1]] = N(nm)
    else:
        setattr(put[0], put[1], N(nm))
    b.insert(k, ast.Assign([N(nm, True)], z))
    return True


def swap(f, i):
    c = []
    for p, b in blocks(f):
        for k in range(len(b) - 1):
            x, y = b[k], b[k + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and pure(s.value) for s in (x, y)):
                if x.targets[0].id not in names(y) and y.targets[0].id not in names(x):
                    c.append((b, k))
    if i >= len(c):
        return False
    b, k = c[i]
    b[k], b[k + 1] = b[k + 1], b[k]
    return True


def nest_and(f, i):
    c = [x for x in ast.walk(f) if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And)]
    if i >= len(c):
        return False
    n = c[i]
    v = n.test.values
    inner = ast.If(v[-1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:]), n.body, [])
    n.test, n.body = v[0], [inner]
    return True


def demorgan(f, i):
    c = [x for x in ast.walk(f) if isinstance(x, (ast.If, ast.While)) and isinstance(x.test, ast.BoolOp)]
    if i >= len(c):
        return False
    n = c[i]
    op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
    n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
    return True


def flip(f, i):
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    c = [x for x in ast.walk(f) if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in m]
    if i >= len(c):
        return False
    n = c[i]
    n.left, n.comparators[0] = n.comparators[0], n.left
    n.ops[0] = m[type(n.ops[0])]()
    return True


def enum_index(f, i):
    """for i, x in enumerate(xs)  ->  for i in range(len(xs)): x = xs[i]   (xs an attribute or name indexable)"""
    c = [x for x in ast.walk(f) if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == "enumerate" and len(x.iter.args) == 1 and isinstance(x.iter.args[0], (ast.Name, ast.Attribute)) and isinstance(x.target, ast.Tuple) and isinstance(x.target.elts[0], ast.Name)]
    if i >= len(c):
        return False
    n = c[i]
    xs = n.iter.args[0]
    idx, el = n.target.elts
    n.target = idx
    n.iter = ast.Call(N("range"), [ast.Call(N("len"), [xs], [])], [])
    n.body.insert(0, ast.Assign([el], ast.Subscript(copy.deepcopy(xs), N(idx.id), ast.Load())))
    return True


def counter(f, i):
    """for i, x in enumerate(xs)  ->  i = 0; for x in xs: ...; i += 1   (no continue)"""
    c = []
    for p, b in blocks(f):
        for k, x in enumerate(b):
            if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == "enumerate" and len(x.iter.args) == 1 and isinstance(x.target, ast.Tuple) and isinstance(x.target.elts[0], ast.Name) and not has(x, ast.Continue) and x.target.elts[0].id not in {n for s in x.body for n in names(s, ast.Store)}:
                c.append((b, k))
    if i >= len(c):
        return False
    b, k = c[i]
    x = b[k]
    idx, el = x.target.elts
    x.target, x.iter = el, x.iter.args[0]
    x.body.append(ast.AugAssign(N(idx.id, True), ast.Add(), ast.Constant(1)))
    b.insert(k, ast.Assign([N(idx.id, True)], ast.Constant(0)))
    return True


def augment(f, i):
    c = []
    for p, b in blocks(f):
        for k, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Subscript):
                c.append((b, k))
    if i >= len(c):
        return False
    b, k = c[i]
    s = b[k]
    t = copy.deepcopy(s.target)
    t.ctx = ast.Load()
    b[k] = ast.Assign([s.target], ast.BinOp(t, s.op, s.value))
    return True


def extract(f, i, tree=None):
    """a window of statements becomes a module-level helper"""
    c = []
    for p, b in blocks(f):
        for a in range(len(b)):
            for z in range(a + 1, min(len(b), a + 5) + 1):
                w = b[a:z]
                if any(has(s, ast.Return, ast.Yield, ast.YieldFrom, ast.Break, ast.Continue, ast.FunctionDef, ast.Global, ast.With, ast.Raise, ast.Nonlocal, ast.Import, ast.ImportFrom) for s in w):
                    continue
                if isinstance(w[0], ast.Expr) and isinstance(w[0].value, ast.Constant):
                    continue
                if any(isinstance(x, ast.Name) and x.id == "super" for s in w for x in ast.walk(s)):
                    continue
                if sum(1 for s in w for _ in ast.walk(s)) < 12:
                    continue
                c.append((b, a, z))
    random.Random(7).shuffle(c)
    if has(f, ast.Import, ast.ImportFrom):
        return False
    if i >= min(len(c), 12):
        return False
    b, a, z = c[i]
    w = b[a:z]
    defs = {g.name for g in ast.walk(f) if isinstance(g, ast.FunctionDef) and g is not f}
    local = names(f, ast.Store) | set(params(f)) | defs
    comp_only = {x for s in w for g in ast.walk(s) if isinstance(g, ast.comprehension) for x in names(g.target)}
    stored = {x for s in w for x in names(s, ast.Store)}
    plain = set()
    for s in w:
        plain |= own_stores(s)
    outside = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and not any(x is y for s in w for y in ast.walk(s))}
    # what the window reads before it surely writes: everything loaded that is local and known before
    loads = {x for s in w for x in names(s, ast.Load)}
    augs = {x.target.id for s in w for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
    before = set(params(f)) | defs
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and (n.lineno < w[0].lineno):
            before.add(n.id)
    need = sorted((loads | augs) & local & before)
    out = sorted(x for x in plain if x in outside)
    # conditional assignment of an out variable not defined before would be unbound
    for x in out:
        if x not in before and not any(isinstance(s, ast.Assign) and x in names(s, ast.Store) for s in w):
            return None
    for x in out:
        if x in before and x not in need:
            need.append(x)
    h = ast.FunctionDef("_extracted_part", ast.arguments([], [ast.arg(x) for x in need], None, [], [], None, []), list(w), [], None)
    call = ast.Call(N("_extracted_part"), [N(x) for x in need], [])
    if out:
        h.body.append(ast.Return(N(out[0]) if len(out) == 1 else ast.Tuple([N(x) for x in out], ast.Load())))
        st = ast.Assign([N(out[0], True) if len(out) == 1 else ast.Tuple([N(x, True) for x in out], ast.Store())], call)
    else:
        st = ast.Expr(call)
    b[a:z] = [st]
    h.type_params = []
    tree.body.append(h)
    return True


def own_stores(s):
    """names bound by s outside comprehensions"""
    out, todo = set(), [s]
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        todo.extend(ast.iter_child_nodes(x))
    return out


def extract_expr(f, i, tree=None):
    """an expression becomes a module-level helper of its free names"""
    c = []
    for p, b in blocks(f):
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return, ast.AugAssign)) and s.value is not None and sum(1 for _ in ast.walk(s.value)) > 8 and not has(s.value, ast.Yield, ast.YieldFrom):
                c.append((s, "value"))
            if isinstance(s, (ast.If, ast.While)):
                c.append((s, "test"))
    random.Random(3).shuffle(c)
    if has(f, ast.Import, ast.ImportFrom):
        return False
    if i >= min(len(c), 10):
        return False
    s, fld = c[i]
    e = getattr(s, fld)
    if any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(e)):
        return None
    local = names(f, ast.Store) | set(params(f)) | {g.name for g in ast.walk(f) if isinstance(g, ast.FunctionDef) and g is not f}
    bound = {n for g in ast.walk(e) if isinstance(g, ast.comprehension) for n in names(g.target)} | {a.arg for g in ast.walk(e) if isinstance(g, ast.Lambda) for a in g.args.args}
    need = sorted((names(e, ast.Load) & local) - bound)
    h = ast.FunctionDef("_extracted_value", ast.arguments([], [ast.arg(x) for x in need], None, [], [], None, []), [ast.Return(e)], [], None)
    h.type_params = []
    setattr(s, fld, ast.Call(N("_extracted_value"), [N(x) for x in need], []))
    tree.body.append(h)
    return True


def delegate(f, i, tree=None):
    """the body moves to a helper with the same parameters"""
    if i or f.decorator_list or f.args.vararg or f.args.kwarg or any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(f)) or has(f, ast.Yield, ast.YieldFrom):
        return False
    h = copy.deepcopy(f)
    h.name = "_implementation_of_" + f.name.strip("_")
    for a in h.args.posonlyargs + h.args.args + h.args.kwonlyargs:
        a.annotation = a.annotation
    tree.body.append(h)
    f.body = [ast.Return(ast.Call(N(h.name), [N(a.arg) for a in f.args.posonlyargs + f.args.args], [ast.keyword(a.arg, N(a.arg)) for a in f.args.kwonlyargs]))]
    return True


def loop_to_while(f, i):
    c = []
    for p, b in blocks(f):
        for k, x in enumerate(b):
            if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == "range" and len(x.iter.args) == 1 and isinstance(x.target, ast.Name) and not has(x, ast.Continue):
                c.append((b, k))
    if i >= len(c):
        return False
    b, k = c[i]
    x = b[k]
    b[k:k + 1] = [ast.Assign([N(x.target.id, True)], ast.Constant(0)),
                  ast.While(ast.Compare(N(x.target.id), [ast.Lt()], [x.iter.args[0]]), x.body + [ast.AugAssign(N(x.target.id, True), ast.Add(), ast.Constant(1))], [])]
    return True


def list_of_gen(f, i):
    """sum(genexp) -> sum([listcomp]); any/all too"""
    c = [x for x in ast.walk(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and len(x.args) == 1 and isinstance(x.args[0], ast.GeneratorExp)]
    if i >= len(c):
        return False
    g = c[i].args[0]
    c[i].args[0] = ast.ListComp(g.elt, g.generators)
    return True


def not_len(f, i):
    """len(x) == 0 -> not len(x)"""
    c = [x for x in ast.walk(f) if isinstance(x, ast.If) and isinstance(x.test, ast.Compare) and isinstance(x.test.left, ast.Call) and isinstance(x.test.left.func, ast.Name) and x.test.left.func.id == "len" and isinstance(x.test.ops[0], ast.Eq) and isinstance(x.test.comparators[0], ast.Constant) and x.test.comparators[0].value == 0]
    if i >= len(c):
        return False
    c[i].test = ast.UnaryOp(ast.Not(), c[i].test.left)
    return True


def one_return(f, i):
    """return e -> result = e; return result"""
    c = []
    for p, b in blocks(f):
        for k, s in enumerate(b):
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
                c.append((b, k))
    if i >= len(c):
        return False
    b, k = c[i]
    b[k:k + 1] = [ast.Assign([N("result_value", True)], b[k].value), ast.Return(N("result_value"))]
    return True


def keywordless(f, i):
    return False


KINDS = dict(rename=rename, invert=invert, else_return=else_return, guard_continue=guard_continue, comp_to_loop=comp_to_loop, ifexp=ifexp, hoist=hoist, swap=swap, nest_and=nest_and,
             demorgan=demorgan, flip=flip, enum_index=enum_index, counter=counter, augment=augment, extract=extract, extract_expr=extract_expr, delegate=delegate, loop_to_while=loop_to_while, list_of_gen=list_of_gen, not_len=not_len, one_return=one_return)
WANT = sys.argv[sys.argv.index("-k") + 1].split(",") if "-k" in sys.argv else list(KINDS)
LIMIT = 14


def survey(qual):
    out = []

    def main():
        base = Repo("/repo/src")
        ref = Repo(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref"))
        f = base.func(qual)
        for kd in WANT:
            fn = KINDS[kd]
            for i in range(LIMIT):
                m = base.modules[f.module.name]
                tree = copy.deepcopy(m.tree)
                tgt = next((n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and n.name == f.name and n.lineno == f.node.lineno), None)
                try:
                    ok = fn(tgt, i, tree) if kd in ("extract", "extract_expr", "delegate") else fn(tgt, i)
                    ast.fix_missing_locations(tree)
                except Exception as e:
                    out.append(("skip", kd, i, repr(e), ""))
                    break
                if ok is None:
                    continue
                if not ok:
                    break
                r = Repo.__new__(Repo)
                r.root = base.root
                r.modules = dict(base.modules)
                m2 = Module.__new__(Module)
                m2.__dict__.update(m.__dict__)
                m2.tree = tree
                m2.imports, m2.funcs, m2.classes, m2.consts = {}, {}, {}, {}
                m2._collect(tree.body)
                r.modules[m.name] = m2
                src = ""
                try:
                    J = Judge(None, ref=ref, repo=r)
                    obs = J.judge(qual)
                except Exception as e:
                    out.append(("crash", kd, i, f"{type(e).__name__} {e}", ""))
                    continue
                vs = [o.verdict for o in obs]
                v = "violated" if "violated" in vs else "undecided" if "undecided" in vs else "satisfied"
                det = next((o.name + ": " + o.detail for o in obs if o.verdict == v and v != "satisfied"), "")
                out.append((v, kd, i, det, ast.unparse(tgt) if v == "violated" and "-v" in sys.argv else ""))

    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
    return qual, out


if __name__ == "__main__":
    pos = [a for i, a in enumerate(sys.argv[1:], 1) if not a.startswith("-") and sys.argv[i - 1] != "-k"]
    pre = "valor_lite." + (pos[0] if pos else "")
    base = Repo("/repo/src")
    quals = sorted({f.qual for f in base.all_funcs() if f.qual.startswith(pre)})
    tot = {}
    with Pool(8) as p:
        for qual, res in p.imap_unordered(survey, quals, chunksize=1):
            for v, kd, i, d, src in res:
                tot.setdefault(kd, {}).setdefault(v, 0)
                tot[kd][v] += 1
                if v != "satisfied":
                    print(v.upper() if v == "violated" else v, kd, i, qual, "|", d[:700])
                    if src:
                        print(src)
    s = {}
    for k in tot:
        print(k, tot[k])
        for v in tot[k]:
            s[v] = s.get(v, 0) + tot[k][v]
    print("TOTAL", s)
