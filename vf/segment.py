"""The part of a function that an edit touches, as a function of its own.

pieces(ref, cur) aligns the syntax trees of two versions of a function (local
names up to a consistent renaming) and yields, from the innermost to the
outermost, the constructs that cover every difference: an expression, a run of
statements, the enclosing statement lists.  Each is returned as a pair of
synthetic functions: parameters are the variables the piece reads, the result
is what it leaves behind (value, variables used afterwards, an early return).
If such a pair is equal for all values of the parameters the versions are
equal; if its difference is decisive, the edit changes what the construct does.
"""
import ast
import copy

LOOPS = (ast.For, ast.While)
FUNCS = (ast.FunctionDef, ast.Lambda)


def clean(fn):
    """a copy without documentation, annotations of variables and empty statements"""
    fn = copy.deepcopy(fn)

    class C(ast.NodeTransformer):
        def visit_AnnAssign(self, n):
            self.generic_visit(n)
            if n.value is None:
                return None
            return ast.copy_location(ast.Assign([n.target], n.value), n)

        def visit_Expr(self, n):
            self.generic_visit(n)
            return None if isinstance(n.value, ast.Constant) else n

        def visit_Pass(self, n):
            return None

    C().visit(fn)
    for p in ast.walk(fn):
        if isinstance(p, (ast.FunctionDef, ast.For, ast.While, ast.If, ast.With, ast.Try, ast.ExceptHandler)) and not p.body:
            p.body = [ast.Pass()]
    return fn


def stores(nodes):
    out = []
    for r in nodes:
        for n in ast.walk(r):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.append(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.append(n.name)
            elif isinstance(n, ast.FunctionDef):
                out.append(n.name)
                out += [a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs]
            elif isinstance(n, ast.Lambda):
                out += [a.arg for a in n.args.args]
    return list(dict.fromkeys(out))


def params(fn):
    a = fn.args
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    return out + [x.arg for x in (a.vararg, a.kwarg) if x]


def local_names(fn):
    return list(dict.fromkeys(params(fn) + stores(fn.body)))


def rename(fn, m):
    class R(ast.NodeTransformer):
        def visit_Name(self, n):
            n.id = m.get(n.id, n.id)
            return n

        def visit_ExceptHandler(self, n):
            self.generic_visit(n)
            n.name = m.get(n.name, n.name)
            return n

        def visit_FunctionDef(self, n):
            self.generic_visit(n)
            if n is not fn:
                n.name = m.get(n.name, n.name)
            return n

        def visit_arg(self, n):
            n.arg = m.get(n.arg, n.arg)
            return n

    R().visit(fn)


def dump(n):
    return ast.dump(n) if isinstance(n, ast.AST) else [dump(x) for x in n] if isinstance(n, list) else repr(n)


class Level:
    __slots__ = ("kind", "a", "b", "role", "live", "pre", "same", "nearly", "matter")

    def __init__(self, kind, a, b, role, live, pre):
        self.kind, self.a, self.b, self.role, self.live, self.pre = kind, a, b, role, live, pre
        self.same = True


MUTATORS = {"append", "extend", "add", "update", "pop", "insert", "remove", "clear", "sort", "setdefault", "fill", "write", "write_rows", "write_batch", "write_table", "flush", "close"}
MODULES = {None, "np", "pc", "pa", "math", "json", "os", "pq"}
HARMLESS = {"len", "range", "enumerate", "zip", "sorted", "int", "float", "str", "bool", "list", "tuple", "dict", "set", "max", "min", "sum", "abs", "isinstance", "any", "all", "reversed", "round"}


def base(n):
    while isinstance(n, (ast.Attribute, ast.Subscript, ast.Starred)):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


ALIASES = {}
VIEWS = {"reshape", "ravel", "view", "transpose", "squeeze", "get", "setdefault", "swapaxes", "asarray", "items", "values"}


def shares(e):
    """names whose object (or a part of it) e may be"""
    if isinstance(e, ast.Name):
        return {e.id}
    if isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred, ast.NamedExpr)):
        return shares(e.value)
    if isinstance(e, ast.IfExp):
        return shares(e.body) | shares(e.orelse)
    if isinstance(e, ast.BoolOp):
        return set().union(*(shares(x) for x in e.values))
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return set().union(*(shares(x) for x in e.elts)) if e.elts else set()
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in VIEWS:
        out = shares(e.func.value)
        for a in e.args:
            out |= shares(a)
        return out
    return set()


def aliases(fns):
    """names that may share an object"""
    g = {}
    for fn in fns:
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign):
                ts, v = n.targets, n.value
            elif isinstance(n, (ast.For, ast.comprehension)):
                ts, v = [n.target], n.iter
            elif isinstance(n, ast.NamedExpr):
                ts, v = [n.target], n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "add", "insert", "extend", "setdefault", "update", "appendleft"):
                b = base(n.func)
                for y in set().union(*map(shares, list(n.args) + [k.value for k in n.keywords])) if n.args or n.keywords else ():
                    if b:
                        g.setdefault(b, set()).add(y)
                        g.setdefault(y, set()).add(b)
                continue
            else:
                continue
            for t in ts:
                pairs = zip(t.elts, v.elts) if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts) else [(t, v)]
                for p, q in pairs:
                    for x in stores([p]) if isinstance(p, (ast.Name, ast.Tuple, ast.List)) else [base(p)]:
                        for y in shares(q) - MODULES:
                            if x:
                                g.setdefault(x, set()).add(y)
                                g.setdefault(y, set()).add(x)
    out = {}
    for x in g:
        seen, todo = set(), [x]
        while todo:
            y = todo.pop()
            if y not in seen:
                seen.add(y)
                if y != "self":
                    todo.extend(g.get(y, ()))
        out[x] = seen
    return out


def touched(s):
    """local names whose variable or object may be changed by s"""
    return set(stores([s])) | changed_objects(s)


def changed_objects(s):
    out = set()
    for n in ast.walk(s):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(base(n))
        elif isinstance(n, ast.AugAssign):
            out.add(base(n.target))
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute):
                b = base(f)
                if f.attr in MUTATORS or b == "self":
                    out.add(b)
                if b in ("np", "pc", "pa", "math") and f.attr not in ("at", "copyto", "put", "place", "fill_diagonal", "putmask"):
                    for k in n.keywords:
                        if k.arg == "out":
                            out.add(base(k.value))
                    continue
            elif isinstance(f, ast.Name) and f.id in HARMLESS:
                continue
            for a in list(n.args) + [k.value for k in n.keywords]:
                out.add(base(a))
    for x in list(out):
        if x != "self":
            out |= ALIASES.get(x, set()) - {"self"}
    return out - MODULES


def free(e):
    """names an expression reads"""
    bound = set()
    for n in ast.walk(e):
        if isinstance(n, ast.comprehension):
            bound |= set(stores([n.target]))
        if isinstance(n, ast.Lambda):
            bound |= {a.arg for a in n.args.args}
    return loads([e]) - bound


def before(pre, need, limit=40):
    """the assignments of pre that need rests on, in order, and what they rest on"""
    need, out, blocked = set(need), [], set()
    for s in reversed(pre):
        if isinstance(s, set):
            blocked |= s
            continue
        ts = None
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            t = s.targets[0]
            if isinstance(t, ast.Name):
                ts = {t.id}
            elif isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts):
                ts = {e.id for e in t.elts}
        if ts is None:
            blocked |= touched(s)
            continue
        ld = free(s.value)
        if not ts & need or ts & blocked or ld & blocked or touched(s) - ts - {"self"} & need or len(out) >= limit:
            blocked |= ts
            continue
        out.append(s)
        need = (need - ts) | ld
    return out[::-1], need


def live_after(rest, live):
    """names that may be read after the statements before rest"""
    o, d = exposed(rest)
    if isinstance(d, Anything):
        return o
    return o | (live - d)


def align(a, b, role, live, out, pre=()):
    """append levels, outermost first; live: names read after a (b); pre: statements before, a set where a loop begins"""
    if isinstance(a, ast.expr) and isinstance(getattr(a, "ctx", ast.Load()), ast.Load):
        out.append(Level("expr", a, b, role, live, pre))
    if type(a) is not type(b):
        return
    bad = []
    for f, x in ast.iter_fields(a):
        y = getattr(b, f)
        if f in ("lineno", "ctx", "type_comment"):
            continue
        if dump(x) != dump(y):
            bad.append((f, x, y))
    if len(bad) != 1:
        return
    f, x, y = bad[0]
    if isinstance(a, LOOPS) and f in ("body", "test"):
        live = live | exposed([a])[0] | exposed([b])[0]
        pre = pre + (touched(a) | touched(b),)
    elif isinstance(a, ast.Try) and f == "body":
        for t in (a, b):
            for h in t.handlers:
                live = live | exposed(h.body)[0]
            live = live | exposed(t.orelse)[0] | exposed(t.finalbody)[0]
    elif isinstance(a, FUNCS):
        live, pre = set(), ()
    if isinstance(x, list) and isinstance(y, list):
        if f in ("body", "orelse", "finalbody"):
            i = 0
            while i < min(len(x), len(y)) and dump(x[i]) == dump(y[i]):
                i += 1
            j = 0
            while j < min(len(x), len(y)) - i and dump(x[-1 - j]) == dump(y[-1 - j]):
                j += 1
            if f == "body" or x:
                out.append(Level("stmts", x, y, "", live, pre))
            sa, sb = x[i:len(x) - j], y[i:len(y) - j]
            live = live_after(x[len(x) - j:], live)
            pre = pre + tuple(x[:i])
            if i or j:
                out.append(Level("stmts", sa, sb, "", live, pre))
            if len(sa) == len(sb) == 1:
                align(sa[0], sb[0], "", live, out, pre)
        elif len(x) == len(y):
            d = [(p, q) for p, q in zip(x, y) if dump(p) != dump(q)]
            if len(d) == 1 and isinstance(d[0][0], ast.AST) and isinstance(d[0][1], ast.AST):
                align(d[0][0], d[0][1], "test" if f in ("ifs",) or (isinstance(a, ast.BoolOp) and role == "test") else "", live, out, pre)
        return
    if isinstance(x, ast.AST) and isinstance(y, ast.AST):
        r = ""
        if f == "test" or (isinstance(a, ast.UnaryOp) and isinstance(a.op, ast.Not)):
            r = "test"
        elif f == "iter":
            r = "iter"
        elif f == "func":
            return
        align(x, y, r, live, out, pre)


def loads(nodes):
    out = set()
    for r in nodes:
        for n in ast.walk(r):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                out.add(n.id)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
    return out


def exposed(stmts, defined=()):
    """names that may be read before they are written in stmts; and those surely written"""
    d, out = set(defined), set()

    def use(e):
        if e is not None:
            out.update(free(e) - d)

    for s in stmts:
        if isinstance(s, ast.Assign):
            use(s.value)
            for t in s.targets:
                use(t)
                d.update(stores([t]))
        elif isinstance(s, ast.AugAssign):
            use(s.value)
            use(s.target)
            if isinstance(s.target, ast.Name):
                if s.target.id not in d:
                    out.add(s.target.id)
                d.add(s.target.id)
        elif isinstance(s, ast.If):
            use(s.test)
            o1, d1 = exposed(s.body, d)
            o2, d2 = exposed(s.orelse, d)
            out |= o1 | o2
            d |= d1 & d2
        elif isinstance(s, ast.For):
            use(s.iter)
            o, _ = exposed(s.body, d | set(stores([s.target])))
            out |= o
            o, _ = exposed(s.orelse, d)
            out |= o
        elif isinstance(s, ast.While):
            use(s.test)
            out |= exposed(s.body, d)[0] | exposed(s.orelse, d)[0]
        elif isinstance(s, ast.With):
            for it in s.items:
                use(it.context_expr)
                if it.optional_vars is not None:
                    d.update(stores([it.optional_vars]))
            o, d1 = exposed(s.body, d)
            out |= o
            d |= d1
        elif isinstance(s, ast.Try):
            o, d1 = exposed(s.body, d)
            out |= o
            for h in s.handlers:
                use(h.type)
                o, _ = exposed(h.body, d | ({h.name} if h.name else set()))
                out |= o
            o, _ = exposed(s.orelse, d1)
            out |= o
            o, _ = exposed(s.finalbody, d)
            out |= o
        elif isinstance(s, ast.FunctionDef):
            o, _ = exposed(s.body, d | set(params(s)) | {s.name})
            out |= o
            d.add(s.name)
        else:
            use(s)
            if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                d |= {"*"}
    if "*" in d:
        return out, Anything(d)
    return out, d


class Anything(set):
    """definitions after a statement that does not complete"""
    def __and__(self, o):
        return set(o)

    def __rand__(self, o):
        return set(o)


def escapes(stmts):
    """break or continue that leaves stmts; yields"""
    def go(s, loop):
        if isinstance(s, (ast.Break, ast.Continue)):
            return not loop
        if isinstance(s, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)):
            return True
        if isinstance(s, FUNCS):
            return False
        inner = loop or isinstance(s, LOOPS)
        return any(go(c, inner) for c in ast.iter_child_nodes(s))
    return any(go(s, False) for s in stmts)


def make(orig, names, body, used):
    """a function over the local variables `used`"""
    anns = {a.arg: a.annotation for a in orig.args.posonlyargs + orig.args.args + orig.args.kwonlyargs}
    again = set(stores(orig.body))
    first = orig.args.args[0].arg if orig.args.args else None
    ps = [n for n in params(orig) if n in used or n == first] + sorted(n for n in used if n not in params(orig))
    args = [ast.arg(p, copy.deepcopy(anns.get(p)) if p not in again else None) for p in ps]
    f = ast.FunctionDef(orig.name, ast.arguments([], args, None, [], [], None, []), body, [d for d in orig.decorator_list if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod")], None)
    ast.copy_location(f, orig)
    return ast.fix_missing_locations(f)


class Ret(ast.NodeTransformer):
    def visit_Return(self, n):
        return ast.copy_location(ast.Return(ast.Tuple([ast.Constant("returned"), n.value or ast.Constant(None)], ast.Load())), n)

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n


def single(a, b):
    """one variable instead of another"""
    return isinstance(a, ast.Name) and isinstance(b, ast.Name)


def pieces(ref, cur):
    """pairs (synthetic reference function, synthetic current function, description), innermost first"""
    A, B = clean(ref), clean(cur)
    if params(A) != params(B):
        return
    A.args = copy.deepcopy(B.args)
    A.decorator_list, B.decorator_list = [], []
    la, lb = local_names(A), local_names(B)
    xa, xb = [n for n in la if n not in lb], [n for n in lb if n not in la]
    if xa and len(xa) == len(xb):
        m = dict(zip(xb, xa))
        B2 = copy.deepcopy(B)
        rename(B2, m)
        if distance(A, B2) < distance(A, B):
            B = B2
    A.returns = B.returns = None
    if dump(A) == dump(B):
        return
    out = []
    ALIASES.clear()
    ALIASES.update(aliases((A, B)))
    align(A, B, "", set(), out)
    names = set(local_names(A)) | set(local_names(B))
    A0, B0 = copy.deepcopy(ref), copy.deepcopy(cur)
    held = False
    # inputs of the function: they stand for themselves everywhere
    fixed = set(params(A)) - set(stores(A.body)) - set(stores(B.body))
    for l in reversed(out):
        # variables whose object can be seen afterwards
        seen = l.live | set(params(A)) | {"self"}
        l.matter = {n for n in names if ALIASES.get(n, {n}) & seen or n in seen}
        if l.kind == "expr":
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Starred)) for e in (l.a, l.b) for x in ast.walk(e)) and not isinstance(l.a, (ast.List, ast.Tuple, ast.Call)):
                continue
            if not l.role and bool(shares(l.a)) != bool(shares(l.b)) and not (isinstance(l.a, (ast.Compare, ast.Constant)) or isinstance(l.b, (ast.Compare, ast.Constant))):
                # an object somebody holds against a new one: equal values are not enough
                held = True
            if held:
                continue
            used = (free(l.a) | free(l.b)) & names
            ua, ub = before(l.pre, free(l.a) & names)[1] & names, before(l.pre, free(l.b) & names)[1] & names
            l.same, l.nearly = single(l.a, l.b) or ua == ub, ua - fixed == ub - fixed
            head, used = before(l.pre, used)
            used &= names
            fs = []
            for o, e in ((A0, l.a), (B0, l.b)):
                e = copy.deepcopy(e)
                if l.role == "test":
                    e = ast.Call(ast.Name("bool", ast.Load()), [e], [])
                elif l.role == "iter":
                    e = ast.ListComp(ast.Name("item__", ast.Load()), [ast.comprehension(ast.Name("item__", ast.Store()), e, [], 0)])
                fs.append(make(o, names, copy.deepcopy(head) + [ast.Return(e)], used))
            yield fs[0], fs[1], "expression " + ast.unparse(l.b)[:80], l
        else:
            if l.a is A.body or l.b is B.body:
                continue
            if escapes(l.a) or escapes(l.b):
                continue
            oa, da = exposed(l.a)
            ob, db = exposed(l.b)
            ins = (oa | ob) & names
            wr = (set(stores(l.a)) | set(stores(l.b))) & names
            outs = {n for n in wr if n in l.live}
            ua, ub = before(l.pre, oa & names)[1] & names, before(l.pre, ob & names)[1] & names
            l.same, l.nearly = not l.a or not l.b or ua == ub, ua - fixed == ub - fixed
            # a variable left as it was on some path
            ins |= {n for n in outs if n not in da or n not in db}
            head, ins = before(l.pre, ins)
            ins &= names
            # objects made before and changed here
            ch = set()
            for z in list(l.a) + list(l.b):
                ch |= touched(z)
            made = set(stores(head))
            if ch & made:
                outs |= {n for n in made | ins if n in l.live}
            outs = sorted(outs)
            ret = any(isinstance(x, ast.Return) for s in l.a + l.b for x in ast.walk(s))
            fs = []
            for o, st in ((A0, l.a), (B0, l.b)):
                body = copy.deepcopy(list(st))
                v = ast.Tuple([ast.Name(n, ast.Load()) for n in outs], ast.Load()) if len(outs) != 1 else ast.Name(outs[0], ast.Load())
                if not outs:
                    v = ast.Constant(None)
                if ret:
                    body = [Ret().visit(s) for s in body]
                    v = ast.Tuple([ast.Constant("completed"), v], ast.Load())
                body = copy.deepcopy(head) + body + [ast.Return(v)]
                fs.append(make(o, names, body, ins))
            yield fs[0], fs[1], "statements at line " + str(getattr((l.b or l.a)[0], "lineno", "?")), l


def distance(a, b):
    x = [dump(n) for n in ast.walk(a) if isinstance(n, (ast.stmt, ast.expr))]
    y = [dump(n) for n in ast.walk(b) if isinstance(n, (ast.stmt, ast.expr))]
    from collections import Counter
    c, d = Counter(x), Counter(y)
    return sum(((c - d) + (d - c)).values())
