"""Objects under more than one name: flow analysis of one function.

Values are compared as values; that is wrong where an object that somebody else
holds is changed in place.  This module finds, by reaching definitions over the
syntax tree,
  * an in-place operator applied to a variable that may still be somebody
    else's array, list or set (`acc = m.mask` ... `acc |= x`),
  * a generator or iterator that is consumed a second time (it is empty then),
  * one mutable object stored at several turns of a loop and changed in between,
  * a repeated or shared mutable default (`[[]] * n`, `dict.fromkeys(k, [])`).
A hazard the reference does not have is a violation.
"""
import ast

MUTCALLS = {"append", "extend", "add", "update", "insert", "clear", "pop", "remove", "sort", "fill", "setdefault", "reverse"}
ITERS = {"map", "filter", "zip", "iter", "reversed", "enumerate"}
FRESH = {"list", "dict", "set", "defaultdict", "np.zeros", "np.ones", "np.empty", "np.full", "np.zeros_like"}
STORES = {"append", "add", "insert", "setdefault", "appendleft"}


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        d = dotted(e.value)
        return d and d + "." + e.attr
    return None


def ann(a):
    """array / list / dict / set of an annotation"""
    if a is None:
        return None
    opts = [o.strip() for o in ast.unparse(a).strip("'\"").split("|")]
    ks = {"array" if o.startswith(("NDArray", "np.ndarray")) else o.split("[")[0].lower() if o.split("[")[0] in ("list", "dict", "set", "List", "Dict", "Set") else "other" for o in opts if o != "None"}
    return next(iter(ks)) if len(ks) == 1 and ks <= {"array", "list", "dict", "set"} else None


def attribute_kinds(trees):
    """attribute name -> kind, where every class that declares it agrees"""
    seen = {}
    for t in trees:
        for c in ast.walk(t):
            if not isinstance(c, ast.ClassDef):
                continue
            for n in ast.walk(c):
                if isinstance(n, ast.AnnAssign):
                    x = n.target
                    name = x.id if isinstance(x, ast.Name) and n in c.body else x.attr if isinstance(x, ast.Attribute) else None
                    if name:
                        seen.setdefault(name, set()).add(ann(n.annotation))
    return {k: next(iter(v)) for k, v in seen.items() if len(v) == 1 and None not in v}


def generator_names(trees):
    """methods that are generators wherever the package defines them"""
    out = {}
    for t in trees:
        for f in ast.walk(t):
            if isinstance(f, ast.FunctionDef):
                g = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(f))
                out.setdefault(f.name, set()).add(g)
    return {k for k, v in out.items() if v == {True}}


def record_names(trees):
    """classes that keep their arguments as they are (data classes)"""
    out = set()
    for t in trees:
        for c in ast.walk(t):
            if isinstance(c, ast.ClassDef) and any("dataclass" in ast.dump(d) for d in c.decorator_list):
                out.add(c.name)
    return out


COPIES = {"list", "dict", "set", "np.array", "copy.copy", "copy.deepcopy", "deepcopy", "np.copy", "sorted"}


def filled_params(trees):
    """functions of the package -> parameters they change in place and do not return"""
    out = {}
    for t in trees:
        for f in ast.walk(t):
            if not isinstance(f, ast.FunctionDef):
                continue
            ps = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
            bound = {x.id for x in own(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            back = set()
            for n in own(f):
                if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None:
                    back |= {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
            ch = set()
            for n in own(f):
                t = []
                if isinstance(n, ast.Assign):
                    t = n.targets
                elif isinstance(n, ast.AugAssign):
                    t = [n.target]
                for x in t:
                    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name):
                        ch.add(x.value.id)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTCALLS and isinstance(n.func.value, ast.Name):
                    ch.add(n.func.value.id)
            out.setdefault(f.name, []).append((ps, (ch & set(ps)) - bound - back - {"self", "cls"}))
    return {k: v[0] for k, v in out.items() if len(v) == 1 and v[0][1]}


def filled_copies(node, filled):
    """calls that are given a new object to fill: [(function, parameter, line)]; and those given one that is held"""
    out, held = [], []
    for n in own(node):
        if not isinstance(n, ast.Call):
            continue
        name = (dotted(n.func) or "").split(".")[-1]
        if name not in filled:
            continue
        ps, ch = filled[name]
        if ps[:1] in (["self"], ["cls"]):
            ps = ps[1:]
        for p, a in list(zip(ps, n.args)) + [(k.arg, k.value) for k in n.keywords]:
            if p not in ch:
                continue
            if isinstance(a, ast.Call) and (dotted(a.func) in COPIES and a.args or isinstance(a.func, ast.Attribute) and a.func.attr in ("copy", "astype", "tolist")):
                x = a.args[0] if a.args and dotted(a.func) in COPIES else a.func.value if isinstance(a.func, ast.Attribute) else None
                while isinstance(x, (ast.Attribute, ast.Subscript)):
                    x = x.value
                if isinstance(x, ast.Name) and any(isinstance(y, ast.Name) and y.id == x.id and isinstance(y.ctx, ast.Load) and y.lineno > n.end_lineno for y in own(node)):
                    out.append((name, p, n.lineno))
            elif isinstance(a, (ast.Name, ast.Attribute, ast.Subscript)):
                held.append((name, p))
    return out, held


def own(f):
    """nodes of a function without those of functions inside it"""
    todo = list(f.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


class Flow:
    def __init__(self, node, attrs, gens, classes=frozenset()):
        self.attrs, self.gens, self.classes = attrs, gens, classes
        self.node = node
        self.empties, self.accs, self.growing = set(), set(), set()
        self.hazards = {}
        self.loops = []  # (breaks, continues)
        self.bound = {n for x in own(node) for n in self.targets(x)}
        self.run(node.body, {})

    @staticmethod
    def targets(x):
        return [x.id] if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) else []

    def note(self, kind, key, n, text):
        self.hazards.setdefault((kind, key, getattr(n, "lineno", 0)), text)

    # ------------------------------------------------------------ values
    def classify(self, e, st):
        if isinstance(e, ast.Name):
            return st.get(e.id, frozenset([("other",)]))
        if isinstance(e, ast.Attribute):
            k = self.attrs.get(e.attr)
            return frozenset([("alias", e.attr, k)]) if k else frozenset([("other",)])
        if isinstance(e, ast.IfExp):
            return self.classify(e.body, st) | self.classify(e.orelse, st)
        if isinstance(e, ast.BoolOp):
            return frozenset().union(*[self.classify(v, st) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.classify(e.value, st)
        if isinstance(e, ast.GeneratorExp):
            return frozenset([("gen", id(e))])
        if isinstance(e, ast.Call):
            d = dotted(e.func) or ""
            if d in ITERS or d.split(".")[-1] in self.gens:
                return frozenset([("gen", id(e))])
            if d in FRESH:
                if d in ("list", "dict", "set") and not e.args and not e.keywords:
                    self.empties.add(id(e))
                    self.accs.add(id(e))
                    self.growing.add(id(e))
                return frozenset([("fresh", id(e), len(self.loops))])
        if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
            if isinstance(e, ast.List) and not e.elts or isinstance(e, ast.Dict) and not e.keys:
                self.empties.add(id(e))
            if id(e) in self.empties or isinstance(e, (ast.ListComp, ast.DictComp, ast.SetComp)) or any(isinstance(x, (ast.List, ast.Dict)) and not getattr(x, "elts", getattr(x, "keys", 1)) or isinstance(x, ast.Constant) and x.value == 0 for x in ast.walk(e)):
                self.accs.add(id(e))
            if not isinstance(e, (ast.ListComp, ast.DictComp, ast.SetComp)) and any(isinstance(x, (ast.List, ast.Dict)) and not getattr(x, "elts", getattr(x, "keys", 1)) for x in ast.walk(e)):
                # it has room for what is found later, perhaps elsewhere
                self.growing.add(id(e))
            return frozenset([("fresh", id(e), len(self.loops))])
        return frozenset([("other",)])

    # ------------------------------------------------------- expressions
    def consumed(self, e):
        """names whose elements the expression runs through, with a flag for more than once"""
        out = []

        def visit(n, many):
            if isinstance(n, (ast.Lambda, ast.FunctionDef)):
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for i, g in enumerate(n.generators):
                    if isinstance(g.iter, ast.Name):
                        out.append((g.iter.id, many or i > 0, n))
                    else:
                        visit(g.iter, many or i > 0)
                    for c in g.ifs:
                        visit(c, True)
                for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                    visit(x, True)
                return
            if isinstance(n, ast.Call):
                d = dotted(n.func) or ""
                if d not in ("next", "isinstance", "print", "type", "id", "repr"):
                    for a in list(n.args) + [k.value for k in n.keywords]:
                        a = a.value if isinstance(a, ast.Starred) else a
                        if isinstance(a, ast.Name):
                            out.append((a.id, many, n))
            if isinstance(n, ast.YieldFrom) and isinstance(n.value, ast.Name):
                out.append((n.value.id, many, n))
            for c in ast.iter_child_nodes(n):
                visit(c, many)
        visit(e, False)
        return out

    def expr(self, e, st):
        if e is None:
            return
        for name, many, n in self.consumed(e):
            self.consume(name, many, n, st)
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                st[n.target.id] = self.classify(n.value, st)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in STORES:
                for a in n.args:
                    self.stored(a, n, st, dotted(n.func.value))
            if isinstance(n, ast.Yield) and n.value is not None:
                self.stored(n.value, n, st, None)
            if isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[0] in self.classes:
                # an object that keeps what it is made of
                names = [a.id for a in list(n.args) + [k.value for k in n.keywords] if isinstance(a, ast.Name)]
                for x in {x for x in names if names.count(x) > 1}:
                    ds = st.get(x, ())
                    if ds and all(d[0] == "fresh" for d in ds):
                        self.note("shared", "twice", n, f"the object {x} stands for is stored in two places")
                for a in list(n.args) + [k.value for k in n.keywords]:
                    self.stored(a, n, st, None)
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and isinstance(n.left, ast.List) and any(isinstance(x, (ast.List, ast.Dict, ast.Set)) for x in n.left.elts):
                self.note("shared", "repeat", n, "one mutable object repeated")
            if isinstance(n, ast.Call) and (dotted(n.func) or "").endswith("dict.fromkeys") and len(n.args) == 2 and isinstance(n.args[1], (ast.List, ast.Dict, ast.Set, ast.Call)) and not (isinstance(n.args[1], ast.Call) and dotted(n.args[1].func) not in FRESH):
                self.note("shared", "fromkeys", n, "one mutable object for all keys")

    def consume(self, name, many, n, st):
        ds = st.get(name, ())
        spent = all(d[0] == "gen" and ("used", d[1]) in st for d in ds)
        for d in ds:
            if d[0] == "gen":
                k = ("used", d[1])
                if many or spent:
                    self.note("iterator", "again", n, f"{name} can be run through only once")
                st[k] = True

    def stored(self, a, n, st, where):
        vs = [a]
        if isinstance(a, (ast.Dict,)):
            vs = a.values
        elif isinstance(a, (ast.Tuple, ast.List)):
            vs = a.elts
        for v in vs:
            if not isinstance(v, ast.Name):
                continue
            ds = st.get(v.id, ())
            if not ds or any(d[0] != "fresh" for d in ds):
                continue
            for d in ds:
                if d[1] in self.accs and where:
                    for k in [k for k in st if isinstance(k, tuple) and k[:2] == ("put", d[1])]:
                        if k[2] != (n.lineno, where) and (d[1] in self.growing or self.changed(v.id, where) or self.changed(v.id, k[2][1])):
                            self.note("shared", "twice", n, f"the object {v.id} stands for is stored in two places")
                    st[("put", d[1], (n.lineno, where))] = True
                if d[2] < len(self.loops):
                    k = ("kept", d[1])
                    if k in st and (self.changed(v.id, where) or where is not None and d[1] in self.empties):
                        self.note("shared", "loop", n, f"the object {v.id} stands for is stored at every turn")
                    st[k] = True

    def changed(self, name, where):
        """in-place changes of a variable, or of the elements of the container it is put in"""
        for n in own(self.node):
            t = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTCALLS:
                t = n.func.value
            elif isinstance(n, (ast.Assign, ast.AugAssign)):
                for x in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(x, ast.Subscript):
                        t = x.value
                    elif isinstance(x, ast.Name) and isinstance(n, ast.AugAssign):
                        t = x
            if t is None:
                continue
            if isinstance(t, ast.Name) and t.id == name:
                return True
            while where and isinstance(t, ast.Subscript):
                t = t.value
                if dotted(t) == where:
                    return True
        return False

    # -------------------------------------------------------- statements
    def run(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    @staticmethod
    def join(*sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        out = {}
        for s in sts:
            for k, v in s.items():
                if k in out and v is not True:
                    out[k] = out[k] | v
                else:
                    out[k] = v
        for k in out:
            if isinstance(k, str) and any(k not in s for s in sts):
                out[k] = out[k] | {("other",)}
        return out

    def assign(self, t, v, st, n):
        if isinstance(t, ast.Name):
            st[t.id] = self.classify(v, st) if v is not None else frozenset([("other",)])
            if v is not None and not isinstance(v, ast.Name):
                for d in st[t.id]:
                    st.pop(("used", d[-1]), None)
                    st.pop(("kept", d[1] if len(d) > 1 else None), None)
                    for k in [k for k in st if isinstance(k, tuple) and len(k) == 3 and k[:2] == ("put", d[1] if len(d) > 1 else None)]:
                        st.pop(k)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                for x, y in zip(t.elts, v.elts):
                    self.assign(x, y, st, n)
            else:
                for x in t.elts:
                    self.assign(x, None, st, n)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, None, st, n)
        else:
            self.expr(t, st)
            if isinstance(t, ast.Subscript) and v is not None:
                self.stored(v, n, st, dotted(t.value))
                self.read_back(t, v, n)

    def read_back(self, t, v, n):
        """an element of one container that grows later, put into another one as well"""
        def root(e):
            while isinstance(e, ast.Subscript):
                e = e.value
            return e.id if isinstance(e, ast.Name) else None
        if not isinstance(v, ast.Subscript):
            return
        a, b = root(t), root(v)
        if not a or not b or a == b or not {a, b} <= self.bound:
            return
        grows = False
        out = set()
        for x in own(self.node):
            if isinstance(x, ast.Assign) and any(isinstance(y, ast.Subscript) and root(y) == b and isinstance(y.value, ast.Name) == isinstance(v.value, ast.Name) for y in x.targets):
                w = x.value
                if isinstance(w, (ast.Dict, ast.List)) and any(isinstance(y, (ast.List, ast.Dict)) and not getattr(y, "elts", getattr(y, "keys", 1)) for y in ast.walk(w)):
                    grows = True
            if isinstance(x, ast.Call):
                out |= {y.id for y in list(x.args) + [k.value for k in x.keywords] if isinstance(y, ast.Name)}
            if isinstance(x, ast.Return) and x.value is not None:
                vs = [x.value] + (x.value.elts if isinstance(x.value, ast.Tuple) else x.value.values if isinstance(x.value, ast.Dict) else [])
                out |= {y.id for y in vs if isinstance(y, ast.Name)}
        if grows and {a, b} <= out:
            self.note("shared", "twice", n, f"an element of {b} is stored in {a} as well")

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            self.expr(s.value, st)
            for t in s.targets:
                self.assign(t, s.value, st, s)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value, st)
                self.assign(s.target, s.value, st, s)
            return st
        if isinstance(s, ast.AugAssign):
            self.expr(s.value, st)
            if isinstance(s.target, ast.Name):
                for d in st.get(s.target.id, ()):
                    if d[0] == "alias" and (d[2] in ("array", "set") or d[2] == "list" and isinstance(s.op, ast.Add) or d[2] == "dict" and isinstance(s.op, ast.BitOr)):
                        self.note("inplace", d[1], s, f"{s.target.id} may still be the {d[1]} of another object")
            else:
                self.expr(s.target, st)
            return st
        if isinstance(s, ast.If):
            self.expr(s.test, st)
            return self.join(self.run(s.body, dict(st)), self.run(s.orelse, dict(st)))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                self.expr(s.test, st)
            else:
                if isinstance(s.iter, ast.Name):
                    self.consume(s.iter.id, False, s, st)
                self.expr(s.iter, st)
            brk, cont, cur, end = [], [], dict(st), None
            for _ in range(3):
                self.loops.append((brk, cont))
                if not isinstance(s, ast.While):
                    self.assign(s.target, None, cur, s)
                end = self.run(s.body, dict(cur))
                self.loops.pop()
                cur = self.join(cur, end, *cont)
                if isinstance(s, ast.While):
                    self.expr(s.test, cur)
            out = self.run(s.orelse, dict(cur)) if s.orelse else cur
            return self.join(out, *brk)
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1][0 if isinstance(s, ast.Break) else 1].append(dict(st))
            return None
        if isinstance(s, ast.Return):
            self.expr(s.value, st)
            return None
        if isinstance(s, ast.Raise):
            return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, None, st, s)
            return self.run(s.body, st)
        if isinstance(s, ast.Try):
            a = self.run(s.body, dict(st))
            hs = []
            for h in s.handlers:
                hs.append(self.run(h.body, self.join(dict(st), a)))
            a = self.run(s.orelse, a) if a is not None else None
            out = self.join(a, *hs)
            if s.finalbody:
                r = self.run(s.finalbody, dict(out if out is not None else st))
                return r if out is not None else None
            return out
        if isinstance(s, ast.Match):
            self.expr(s.subject, st)
            return self.join(dict(st), *[self.run(c.body, dict(st)) for c in s.cases])
        if isinstance(s, ast.Expr):
            self.expr(s.value, st)
            return st
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
            return st
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                self.expr(e, st)
        return st


def touched(node):
    """attributes changed in place, by whatever name"""
    out = []
    for n in own(node):
        t = None
        if isinstance(n, ast.AugAssign):
            t = n.target
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTCALLS:
            t = n.func.value
        ts = [t] if t is not None else n.targets if isinstance(n, ast.Assign) else []
        for t in ts:
            while isinstance(t, ast.Subscript):
                t = t.value
                if isinstance(t, ast.Attribute):
                    out.append(t.attr)
            if isinstance(t, ast.Attribute):
                out.append(t.attr)
    return out


def compare(ref, cur, ctx_ref, ctx_cur, filled=None):
    """hazards of cur that ref does not have: [(text, line)]"""
    if not isinstance(ref, ast.FunctionDef) or not isinstance(cur, ast.FunctionDef):
        return []
    if filled:
        lost, _ = filled_copies(cur, filled)
        if lost:
            was, held = filled_copies(ref, filled)
            for name, p, line in lost:
                if (name, p) in held and (name, p) not in [x[:2] for x in was]:
                    return [(f"{name} fills a copy: the {p} that was passed is not changed", line)]
    hc = Flow(cur, *ctx_cur).hazards
    if not hc:
        return []
    hr = Flow(ref, *ctx_ref).hazards
    tr, tc = touched(ref), touched(cur)
    out = []
    for kind in ("inplace", "iterator", "shared"):
        r = [k for k in hr if k[0] == kind]
        c = [k for k in hc if k[0] == kind]
        if kind == "inplace":
            n = lambda a, hs, ts: sum(x[1] == a for x in hs) + ts.count(a)
            c = [k for k in c if n(k[1], c, tc) > n(k[1], r, tr)]
        elif len(c) <= len(r):
            continue
        out += [(hc[k], k[2]) for k in c]
    return out
