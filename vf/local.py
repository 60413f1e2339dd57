"""Where two terms differ: the smallest pairs of constructs whose replacement makes them equal.

pairs(a, b) descends both terms in parallel and returns a list of Gap(x, y, ctx):
the constructs at which they part.  Used as a second opinion when the term
comparison is undecided; decide() (below) says whether a gap can be an
equivalent rewriting.
"""
import math
import re
from fractions import Fraction
from .ir import *
from .norm import *
from .interp import flatten, Rec
from .cmp import flat_cases, Cmp, Diff, TRIVIAL, SIZE_ATTRS, diff_bool, canon_ratio, recT, interpreted
from . import norm

INF = 10 ** 6


class Gap:
    __slots__ = ("a", "b", "why", "inner", "loose", "removes", "arg")

    def __init__(self, a, b, why="", inner=()):
        self.a, self.b, self.why, self.inner = a, b, why, inner
        self.loose = self.removes = self.arg = False

    def __repr__(self):
        return f"<{show(self.a, 12)[:1400]}  ##  {show(self.b, 12)[:1400]}>({self.why})"


def size(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = memo[t] = min(400, 1 + sum(size(x) for x in kids(t)))
    return r


def cost(gs):
    return sum(size(g.a) + size(g.b) for g in gs)


class Local:
    def __init__(self, X):
        self.X = X
        self.memo = {}
        self.steps = 0
        self.assume = set()

    def eq(self, a, b):
        return a is b or not self.X.diff(a, b)

    def pairs(self, a, b, depth=0):
        if a is b:
            return []
        k = (a, b)
        r = self.memo.get(k)
        if r is not None:
            return r
        self.steps += 1
        if depth > 50 or self.steps > 6000:
            return [Gap(a, b, "limit")]
        if self.eq(a, b):
            r = []
        else:
            r = self._pairs(a, b, depth)
        self.memo[k] = r
        return r

    def list(self, a, b, xs, ys, depth, merge=True):
        """children by position; the parent is the gap when nothing of it is shared"""
        if len(xs) != len(ys):
            return [Gap(a, b, "arity")]
        out, n = [], 0
        for x, y in zip(xs, ys):
            p = self.pairs(x, y, depth + 1)
            if p:
                n += 1
                out += p
        if merge and n == len(xs) and n > 1:
            return [Gap(a, b, "all parts", () if a.op == "index" else out)]
        return out

    def bag(self, a, b, xs, ys, depth, why):
        """children as multisets"""
        xs, ys = list(xs), list(ys)
        for x in list(xs):
            if x in ys:
                xs.remove(x)
                ys.remove(x)
        for x in list(xs):
            for y in ys:
                if self.eq(x, y):
                    xs.remove(x)
                    ys.remove(y)
                    break
        if not xs and not ys:
            return []
        if not xs or not ys or len(xs) != len(ys):
            return [Gap(mk("bag", why, tuple(xs)), mk("bag", why, tuple(ys)), why)]
        out = []
        opts = sorted(((x.op != y.op, cost(p), i, j, p) for i, x in enumerate(xs) for j, y in enumerate(ys) for p in [self.pairs(x, y, depth + 1)]), key=lambda o: o[:4])
        ix, iy = set(), set()
        for _, _, i, j, p in opts:
            if i not in ix and j not in iy:
                ix.add(i)
                iy.add(j)
                out += p
        if len(xs) > 1 and not (len({x.op for x in xs}) == len(xs) and {x.op for x in xs} == {y.op for y in ys}):
            loosen(out)
        return out

    def _pairs(self, a, b, depth):
        a, b = canon_ratio(a), canon_ratio(b)
        if a.op == "log" or b.op == "log":
            if a.op == b.op:
                return self.logs(a, b, depth)
            return [Gap(a, b, "container")]
        if a.op != b.op:
            for u, v in ((a, b), (b, a)):
                if v.op in ("and", "or") and u.op in ("lt", "eq", "in", "isinst", "truth", "not") and any(u is z for z in v.args[0]):
                    return [Gap(a, b, "op", self.bag(a, b, a.args[0] if a is v else (a,), b.args[0] if b is v else (b,), depth, v.op))]
            return [Gap(a, b, "op")]
        o = a.op
        if o in ("and", "or", "add", "mul"):
            return self.bag(a, b, a.args[0], b.args[0], depth, o)
        if o == "eq":
            p1 = self.list(a, b, a.args, b.args, depth)
            p2 = self.list(a, b, a.args, b.args[::-1], depth)
            return p1 if cost(p1) <= cost(p2) else p2
        if o == "tuple":
            return self.list(a, b, a.args[0], b.args[0], depth)
        if o == "len" and distinct(a.args[0]) != distinct(b.args[0]):
            return [Gap(a, b, "len")]
        if o == "call":
            if a.args[0] != b.args[0] or len(a.args[1]) != len(b.args[1]):
                return [Gap(a, b, "call")]
            ka, kb = dict(a.args[2]), dict(b.args[2])
            if set(ka) != set(kb):
                return [Gap(a, b, "keywords")]
            if any(k == "axis" and is_num(ka[k]) and is_num(kb[k]) and (cval(ka[k]) < 0) != (cval(kb[k]) < 0) for k in ka):
                # counted from the other end: the same axis, for some number of axes
                return [Gap(a, b, "keywords")]
            ks = sorted(ka)
            us, vs = list(a.args[1]) + [ka[k] for k in ks], list(b.args[1]) + [kb[k] for k in ks]
            out = self.list(a, b, us, vs, depth, merge=len(a.args[1]) > 1 and not a.args[0].startswith("valor_lite."))
            if a.args[0] not in ORDERLESS:
                for g in out:
                    if any(g.a is u and g.b is v for u, v in zip(us, vs)):
                        g.arg = True
            return out
        if o == "obj":
            if a.args[0] != b.args[0]:
                return [Gap(a, b, "class")]
            da, db = dict(a.args[2]), dict(b.args[2])
            if set(da) != set(db):
                if a.args[1] is not b.args[1]:
                    return [Gap(a, b, "fields")]
                for k in set(da) ^ set(db):
                    # not set: what it was
                    inside = set().union(*[walk(v) for v in list(da.values()) + list(db.values())])
                    was = next((w for w in (mk("sym", "self." + k), mk("attr", a.args[1], k)) if w in inside), None)
                    if was is None:
                        return [Gap(a, b, "fields")]
                    da.setdefault(k, was)
                    db.setdefault(k, was)
            ks = sorted(da)
            return self.list(a, b, [da[k] for k in ks], [db[k] for k in ks], depth, merge=False)
        if o == "fstr":
            return self.list(a, b, a.args[0], b.args[0], depth, merge=False)
        if o == "iv":
            return self.pairs(a.args[0], b.args[0], depth + 1) or [Gap(a, b, "iv")]
        if o in ("sum", "exists", "last"):
            return self.bind([a.args[0]], [b.args[0]], a.args[1], b.args[1], list(a.args[2:]), list(b.args[2:]), depth, a, b)
        if o == "fold":
            f2 = subst(b.args[4], {b.args[2]: a.args[2]})
            return self.bind([a.args[0], a.args[3]], [b.args[0], b.args[3]], a.args[1], b.args[1], [a.args[4]], [f2], depth, a, b)
        if o == "phi":
            if (a, b) in self.assume:
                return []
            x, y = self.X.pa.get(a), self.X.pb.get(b)
            if x is None or y is None:
                return [Gap(a, b, "loop state")]
            m = {y[0]: x[0]}
            d = self.pairs(a.args[0], b.args[0], depth + 1)
            if a.args[0] is not b.args[0]:
                m[mk("iv", b.args[0], b.args[1])] = mk("iv", a.args[0], a.args[1])
            self.assume.add((a, b))
            d = d + self.pairs(x[1], y[1], depth + 1) + self.pairs(x[2], subst(y[2], m), depth + 1)
            self.assume.discard((a, b))
            return d
        if o in ("const", "sym", "ext", "enum", "cls", "empty", "fn", "mod", "opaque"):
            return [Gap(a, b, "leaf")]
        # generic: same operator, same non-term arguments, term arguments by position
        if len(a.args) != len(b.args):
            return [Gap(a, b, "arity")]
        xs, ys = [], []
        for x, y in zip(a.args, b.args):
            if isinstance(x, T) != isinstance(y, T):
                return [Gap(a, b, "shape")]
            if isinstance(x, T):
                xs.append(x)
                ys.append(y)
            elif isinstance(x, tuple) and isinstance(y, tuple):
                kx, ky = list(kids(mk("k", x))), list(kids(mk("k", y)))
                if len(kx) != len(ky):
                    return [Gap(a, b, "shape")]
                xs += kx
                ys += ky
            elif x != y:
                return [Gap(a, b, "name")]
        return self.list(a, b, xs, ys, depth)

    def bind(self, da, db, iva, ivb, xs, ys, depth, a, b):
        out = []
        for x, y in zip(da, db):
            out += self.pairs(x, y, depth + 1)
        if iva is not ivb:
            ys = [subst(y, {ivb: iva}) for y in ys]
        p = self.list(a, b, xs, ys, depth, merge=False)
        if out and p and cost(out + p) > 0.7 * (size(a) + size(b)):
            return [Gap(a, b, "loop", out + p)]
        return out + p

    # ---------------------------------------------------------------- logs
    def logs(self, a, b, depth):
        out = self.pairs(log_parts(a)[0], log_parts(b)[0], depth + 1)
        ra, rb = flatten(a), flatten(b)
        if out and bool(ra) != bool(rb):
            return [Gap(a, b, "container")]
        return out + self.records(ra, rb, depth)

    def records(self, ra, rb, depth):
        ra, rb = list(ra), list(rb)
        for x in list(ra):
            for y in rb:
                if not self.X.rec_diff(x, y, depth):
                    ra.remove(x)
                    rb.remove(y)
                    break
        if not ra and not rb:
            return []
        if len(ra) != len(rb):
            return [Gap(mk("bag", "writes", tuple(full(r) for r in ra)), mk("bag", "writes", tuple(full(r) for r in rb)), "writes")]
        out = []
        shape = lambda r: (r.action, len(r.loops()), len(r.path))
        sa, sb = [shape(r) for r in ra], [shape(r) for r in rb]
        if len(set(sa)) == len(sa) and set(sa) == set(sb):
            # only one of each kind: there is one way to pair them
            for x, h in zip(ra, sa):
                out += self.rec(x, rb[sb.index(h)], depth)
            return out
        for x in ra:
            best = None
            for y in rb:
                p = self.rec(x, y, depth)
                c = cost(p)
                if best is None or c < best[0]:
                    best = (c, y, p)
            rb.remove(best[1])
            out += best[2]
        if len(ra) > 1:
            loosen(out)
        return out

    def rec(self, x, y, depth):
        lx, ly = x.loops(), y.loops()
        if x.action != y.action or len(lx) != len(ly) or len(x.path) != len(y.path):
            return [Gap(full(x), full(y), "write")]
        m, out = {}, []
        ly2 = list(ly)
        prs = []
        for l in lx:
            hit = next((q for q in ly2 if q[1] is l[1]), None)
            if hit is not None:
                ly2.remove(hit)
            prs.append((l, hit))
        prs = [(l, h if h is not None else ly2.pop(0)) for l, h in prs]
        for l, h in prs:
            if l[2] is not h[2]:
                m[h[2]] = l[2]
        f = (lambda t: subst(t, m)) if m else (lambda t: t)
        for l, h in prs:
            d2 = f(h[1])
            if l[1] is not d2:
                out += self.pairs(l[1], d2, depth + 1)
        cx, cy = And(*x.conds()), f(And(*y.conds()))
        if cx is not cy:
            if cy is TRUE and x.action == "set" and y.value is not None and not any(z.op in ("ite", "call", "max", "min", "and", "or", "not", "phi", "fold", "add", "mul") and not (z.op == "call" and z.args[0].startswith("valor_lite.")) for z in walk(f(y.value))):
                # written whatever the test says
                p = []
                for u, v in zip(x.path, y.path):
                    p += self.pairs(u, f(v), depth + 1)
                if not p:
                    return out + [Gap(cx, cy, "unconditional")]
            p = self.pairs(cx, cy, depth + 1)
            if p and self.happens(x, cx, cy):
                p = [Gap(cx, cy, "happens", p)]
            elif cx is TRUE and len(p) == 1:
                p[0].removes = True
            out += p
        for p, q in zip(x.path, y.path):
            out += self.pairs(p, f(q), depth + 1)
        if x.value is not None and y.value is not None:
            out += self.pairs(x.value, f(y.value), depth + 1)
        return out


    def happens(self, r, cx, cy):
        """something that is done whatever the containers hold, and that now depends on another one being empty (or no longer does)"""
        xs, ys = conjuncts(cx), conjuncts(cy)
        if not (xs < ys or ys < xs):
            return False
        doms = [c[1] for c in r.loops()]
        us = []
        for e in xs ^ ys:
            if not interpreted(e):
                return False
            u = empty_test(e)
            if u is None:
                u = long_test(e)
                if u is None:
                    return False
            elif any(u in set(walk(d)) for d in doms):
                return False
            us.append(u)
        if r.action.startswith("effect call:"):
            n = callee(r.action)
            if self.X.cfg.certain(n) or all(empty_test(e) is None for e in xs ^ ys):
                return True
            # a container of the object that the called function never looks at
            names = self.X.cfg.reads(n)
            return names is not None and all(field_of(u) and not field_of(u).startswith("_") and field_of(u) not in names for u in us) and r.value is not None and r.value.op == "call" and not any(u in set(walk(z)) for u in us for z in list(r.value.args[1]) + [v for _, v in r.value.args[2]] if z.op != "obj")
        if r.action in ("append", "iadd", "add", "+=") and r.value is not None:
            inside = set(walk(r.value)).union(*[walk(z) for z in r.path]) if r.path else set(walk(r.value))
            return not any(leaf(u) & inside for u in us)
        return False


def field_of(t):
    """the name of the attribute of a parameter that t is"""
    if t.op == "attr" and t.args[0].op == "sym":
        return t.args[1]
    if t.op == "sym" and isinstance(t.args[0], str) and t.args[0].startswith("self."):
        return t.args[0][5:]
    return None


def conjuncts(c):
    return set(c.args[0]) if c.op == "and" else set() if c is TRUE else {c}


def callee(action):
    n = action.split(":", 1)[1]
    return "()" if n.startswith("()") else n.split("(")[0]


def long_test(c):
    """the container a test says has (at least, at most) some number of elements"""
    if c.op == "not":
        return long_test(c.args[0])
    if c.op in ("lt", "eq"):
        p, q = c.args
        k, l = (p, q) if is_num(p) else (q, p)
        if is_num(k) and l.op == "len" and cval(k) >= 1 and not (c.op == "lt" and l is p and cval(k) == 1):
            return l.args[0]
    return None


def loosen(gs):
    """the pairing is a guess"""
    for g in gs:
        g.loose = True
        loosen(g.inner)


def full(r):
    e = (ent(r.path, r.action, r.value if r.value is not None else NONE),)
    for c in reversed(r.ctx):
        e = when(c[1], e) if c[0] == "when" else each(c[1], c[2], e)
    return e[0] if len(e) == 1 else log(empty("list"), e)


# -------------------------------------------------------------------- decision
ORDERLESS = {"m.sum", "m.any", "m.all", "m.max", "m.min", "len", "set", "setof", "np.unique", "max", "min", "sum"}


def decide(gaps, a, b, X, run=None):
    """the decisive difference when every gap is one, or becomes nothing once the decisive ones are undone"""
    first = None
    for _ in range(4):
        X.appended = is_list(a)
        X.doms = set().union(*[leaf(z.args[0]) for t in (a, b) for z in walk(t) if z.op == "each"]) if X.appended else None
        d = decide1(gaps, a, b, X)
        if d:
            return first or d
        hits, m = [], {}
        todo = list(gaps[:40])
        while todo:
            g = todo.pop(0)
            if g.b.op in ("bag", "const") or g.b in m:
                continue
            w = decisive(g, a, b, X)
            if w and g.inner and len(g.inner) < 12:
                todo += g.inner
            elif w:
                hits.append((g, w))
                m[g.b] = g.a
        if not m and run is not None:
            # one guessed pair, if it explains everything
            for g in gaps[:12]:
                if g.loose and g.why != "limit" and g.b.op not in ("bag", "const") and interpreted(g.a) and interpreted(g.b):
                    w = _decisive(g.a, g.b, a, b, X)
                    b2 = subst(b, {g.b: g.a}) if w else b
                    if b2 is not b and is_bool(a) is False and not X.diff(a, b2):
                        return first or Diff("D", g.a, g.b, w)
        for k in list(m):
            # the smallest constructs explain the larger ones
            if any(z is not k and z in m for z in walk(k)):
                del m[k]
        if not m:
            return None
        b2 = subst(b, m)
        pb = {subst(k, m): tuple(subst(z, m) for z in v) for k, v in X.pb.items()}
        if b2 is b and pb == X.pb:
            return None
        X = Cmp(X.cfg, X.pa, pb)
        if first is None:
            g, w = min(hits, key=lambda h: len(h[1]))
            first = Diff("D", g.a, g.b, w)
        b = b2
        if run is not None and not (diff_bool(a, b, X, 0) if is_bool(a) else X.diff(a, b)):
            return first
        gaps = Local(X).pairs(a, b)
        if not gaps:
            # every part corresponds (loop states by assumption) once the decisive constructs are undone
            return first
    return None


def decide1(gaps, a, b, X):
    """the decisive difference when every gap is one, else None"""
    seen, first, fewer, less = set(), None, False, True
    if not gaps:
        return None
    for g in gaps[:12]:
        if g.why not in ("limit", "happens") and g.a.op == g.b.op == "index" and interpreted(g.a) and interpreted(g.b) and "values in another order than their keys" in (pattern(g.a, g.b, X), pattern(g.b, g.a, X)):
            # whatever else changes
            return Diff("D", g.a, g.b, "values in another order than their keys")
    for g in gaps:
        if (g.a, g.b) in seen:
            continue
        seen.add((g.a, g.b))
        if len(seen) > 12:
            return None
        w = decisive(g, a, b, X)
        if not w:
            if getattr(g, "removes", False) and g.a is TRUE and interpreted(g.b):
                # it only makes fewer writes, and so does what is decisive
                fewer = True
                continue
            return None
        if w != "loop ends early":
            less = False
        if first is None or len(w) < len(first[1]):
            first = (g, w)
    if first is None or fewer and not less:
        return None
    return Diff("D", first[0].a, first[0].b, first[1])


def decisive(g, a, b, X):
    x, y = g.a, g.b
    if g.why == "limit":
        return None
    if g.why == "happens":
        return "done in other cases"
    if g.why == "writes" and interpreted(x) and interpreted(y):
        w = other_places(x, y)
        if w:
            return w
    if g.arg and interpreted(x) and interpreted(y) and {TRUE, FALSE} & {x, y} and is_bool(x) and is_bool(y):
        z = y if x in (TRUE, FALSE) else x
        if z.op in ("lt", "eq", "not") and leaf(z) and long_test(z) is not None:
            return "option depends on the number of elements"
    if interpreted(x) and interpreted(y):
        memo = X.__dict__.setdefault("decided", {})
        k = (x, y, a, b, g.loose)
        if k not in memo:
            memo[k] = _decisive(x, y, a, b, X, g.loose)
        w = memo[k]
        if w:
            return w
    if g.inner:
        first = None
        for i in g.inner:
            w = decisive(i, a, b, X)
            if not w:
                return None
            first = first or w
        return first
    return None


def is_column(t):
    """a whole column of the data (not one element of it)"""
    while True:
        if t.op == "call" and t.args[0] == "m.astype":
            t = t.args[1][0]
        elif t.op in ("add", "mul"):
            zs = [z for z in t.args[0] if not is_num(z)]
            if len(zs) != 1:
                return False
            t = zs[0]
        elif t.op == "index" and is_bool(t.args[1]):
            t = t.args[0]
        else:
            return t.op == "call" and t.args[0] == "m.to_numpy" and len(t.args[1]) == 1 and t.args[1][0].op == "index" and t.args[1][0].args[1].op == "const"


def other_places(x, y):
    """writes that add up values in places given by columns of the data"""
    def recs(t):
        out = []
        for z in t.args[1]:
            out += flatten(z if z.op == "log" else log(empty("list"), (z,)))
        return out

    def comps(r):
        out = []
        for z in r.path:
            out += list(z.args[0]) if z.op == "tuple" else [z]
        return out
    ra, rb = recs(x), recs(y)
    if not ra or not rb or len(ra) != len(x.args[1]) or len(rb) != len(y.args[1]):
        return None
    if any(r.action not in ("add", "scatter_add") for r in ra):
        return None

    def repeats(r):
        return any(is_column(z) for z in comps(r))
    if any(r.action == "add" and repeats(r) and isinstance(r.value, T) and not num_value(r.value) for r in rb) and not any(r.action == "add" and repeats(r) for r in ra):
        return "values for the same place are added only once"
    if all(r.action == "set" for r in rb) and any(any(z.op == "index" and z.args[1].op == "iv" and is_column(z.args[0]) for c in comps(r) for z in walk(c)) for r in rb):
        return "values for the same place overwrite each other"

    def axes(rs):
        out = {}
        for r in rs:
            ts = [r.value] + [c[1] for c in r.ctx if c[0] == "when"]
            for k, c in enumerate(comps(r)):
                names = set()
                ivs = {z for z in walk(c) if z.op == "iv"}
                if named_columns(c):
                    names |= named_columns(c)
                else:
                    for t in ts:
                        for z in walk(t):
                            if z.op == "eq" and any(w in ivs for w in z.args):
                                names |= {n for w in z.args if w not in ivs for n in named_columns(w)}
                out.setdefault(k, set()).update(names)
        return out
    ka, kb = axes(ra), axes(rb)
    if set(ka) == set(kb) and len(ka) > 1 and all(len(v) == 1 for v in list(ka.values()) + list(kb.values())) and ka != kb and len({tuple(v) for v in ka.values()}) == len(ka) and set().union(*ka.values()) == set().union(*kb.values()):
        return "axes exchanged"
    return None


def num_value(t):
    return is_num(t) or t.op == "call" and t.args[0] in ("m.sum", "len", "int")


def positional(t):
    """a test of which turn of a loop this is, against a constant"""
    if t.op == "not":
        return positional(t.args[0])
    if t.op in ("lt", "eq"):
        p, q = t.args
        if p.op == "const":
            p, q = q, p
        return p.op == "iv" and is_num(q)
    if t.op == "truth":
        return t.args[0].op == "iv"
    if t.op in ("and", "or"):
        return all(positional(z) for z in t.args[0])
    return False


def part_of_turns(x, y):
    """y is x, but only for some turns of a loop"""
    if x.op == "bag" and y.op == "bag" and x.args[0] == "and":
        return not x.args[1] and y.args[1] and all(positional(z) for z in y.args[1])
    if is_bool(x) and is_bool(y):
        xs = {TRUE} if x is TRUE else set(x.args[0]) if x.op == "and" else {x}
        ys = set(y.args[0]) if y.op == "and" else {y}
        extra = ys - xs
        return bool(extra) and not (xs - {TRUE}) - ys and all(positional(z) for z in extra)
    if y.op == "ite" and x.op != "ite" and positional(y.args[0]):
        return x in y.args[1:]
    return False


def unsorted(t):
    """elements of sorted(d.items()) as elements of d"""
    m = {}
    for z in walk(t):
        if z.op == "index" and z.args[0].op == "index" and z.args[0].args[0].op == "call" and z.args[0].args[0].args[0] == "sorted" and is_num(z.args[1]) and z.args[0].args[0].args[1]:
            u = z.args[0].args[0].args[1][0]
            if u.op == "call" and u.args[0] == "m.items" and u.args[1]:
                d = u.args[1][0]
                key = mk("index", mk("call", "m.keys", (d,), ()), z.args[0].args[1])
                m[z] = key if cval(z.args[1]) == 0 else mk("index", d, key)
    return subst(t, m) if m else t


def nonzero(t):
    """what a term can be besides zero"""
    if t.op == "ite":
        return nonzero(t.args[1]) | nonzero(t.args[2])
    if t.op == "mul" and any(is_bool(z) for z in t.args[0]):
        return nonzero(Mul(*[z for z in t.args[0] if not is_bool(z)])) | {t}
    return set() if is_num(t) and cval(t) == 0 else {t}


def last_turn(x, y):
    """x adds up what y keeps of the last turn of a loop only"""
    s = x if x.op == "sum" else next((z for z in x.args[0] if z.op == "sum"), None) if x.op == "add" else None
    if s is None:
        return False
    if y.op == "last":
        return y.args[2] in nonzero(s.args[2])
    if y.op != "fold":
        return False
    phi = y.args[2]
    vs = {v for c, v in flat_cases(y.args[4]) if v is not phi}
    return bool(vs) and all(not has(v, phi) for v in vs) and vs <= nonzero(s.args[2])


def empty_test(c):
    """the container a test says is not empty"""
    if c.op == "truth":
        return c.args[0]
    if c.op == "lt" and is_num(c.args[0]) and cval(c.args[0]) == 0:
        z = c.args[1]
        if z.op == "len":
            return z.args[0]
        if z.op == "attr" and z.args[1] == "size":
            return z.args[0]
        if z.op == "index" and z.args[0].op == "attr" and z.args[0].args[1] == "shape":
            return z.args[0].args[0]
    return None


def vacuous(cs, extra):
    """extra tests that a container is not empty; another test of it holds for every empty one"""
    for e in extra:
        u = empty_test(e)
        if u is None or any(empty_test(c) is u for c in cs):
            return False
        q = [quantifier(c) for c in cs]
        if not any(z and z[0] == "all" and u in set(walk(z[3])) | set(walk(z[1]) if isinstance(z[1], T) else ()) for z in q):
            return False
    return bool(extra)


def clamped(t):
    """(e, 0) of max(e, 0)"""
    if t.op == "call" and t.args[0] in ("max", "np.maximum", "np.clip", "m.clip") and len(t.args[1]) >= 2:
        z = [v for v in t.args[1] if is_num(v) and cval(v) == 0]
        r = [v for v in t.args[1] if not is_num(v)]
        if z and len(r) == 1:
            return r[0]
    return None


def leaf(t):
    return {z for z in walk(t) if z.op == "sym" or z.op == "attr" and z.args[0].op in ("sym", "obj")}


def calls_of(t, names):
    return [z for z in walk(t) if z.op == "call" and z.args[0] in names]


MEANS = {"m.mean", "np.mean", "np.average", "np.median", "m.std", "np.std"}


def first_of(t):
    return t.args[1][0] if t.args[1] else None


def distinct(t):
    """a collection of the different elements of another"""
    if t.op == "call" and t.args[0] in ("m.sort", "sorted", "np.sort", "list") and t.args[1] and t.args[1][0].op in ("call", "setof"):
        t = t.args[1][0]
    return t.op == "setof" or t.op == "call" and t.args[0] in ("set", "np.unique", "frozenset", "m.unique", "pc.unique")


def first_only(p, q):
    """q is what p does for each element of a container, done for one element only"""
    if p.op == "log" and p.args[0].op == "empty" and len(p.args[1]) == 1:
        p = p.args[1][0]
    if p.op != "each":
        return False
    dom, iv, es = p.args
    if len(es) != 1 or es[0].op != "ent" or q.op != "ent" or es[0].args[1] != q.args[1]:
        return False
    e, f = es[0].args[2], q.args[2]
    if not isinstance(e, T) or not isinstance(f, T):
        return False
    for el in {z for z in walk(e) if z.op == "index" and z.args[1] is iv}:
        u = el.args[0]
        for z in walk(f):
            one = z.op == "index" and z.args[0] is u and is_num(z.args[1]) or z.op == "call" and z.args[0] == "next" and z.args[1] and z.args[1][0].op == "call" and z.args[1][0].args[0] == "iter" and z.args[1][0].args[1] and z.args[1][0].args[1][0] is u
            if one and subst(e, {el: z}) is f:
                return True
    return False


PARENTS = {"JSONDecodeError": "ValueError", "ArrowInvalid": "ValueError", "ArrowKeyError": "KeyError", "ArrowTypeError": "TypeError"}


def ancestors(n):
    """names of the built-in classes an exception class derives from"""
    import builtins
    n = PARENTS.get(n, n)
    c = getattr(builtins, n, None)
    return [k.__name__ for k in c.__mro__] if isinstance(c, type) else [n, "Exception", "BaseException"]


def handled(t):
    """(what is done, the exception types of the handler it is done in)"""
    if t.op != "ent" or not t.args[1].startswith("effect "):
        return None
    m = re.search(r"\(\"\((.*)\)\",\)$", t.args[1])
    if not m:
        return None
    return t.args[1][:m.start()], set(re.findall(r"'([^']+)'", m.group(1)))


def in_handler(t, X):
    """the outside call a record makes in an exception handler"""
    while t.op in ("each", "when", "log"):
        es = t.args[-1] if t.op != "when" else t.args[1]
        if not isinstance(es, tuple) or len(es) != 1:
            return None
        t = es[0]
    if t.op != "ent" or not t.args[1].startswith("effect call:"):
        return None
    n = callee(t.args[1])
    tr = t.args[1][len("effect call:") + len(n):]
    import ast
    try:
        ctx = ast.literal_eval(tr)
    except (ValueError, SyntaxError):
        return None
    if any(isinstance(c, tuple) and c and isinstance(c[0], str) for c in ctx) and X.cfg.certain(n):
        return n, tr
    return None


def other_handler(x, y):
    u, v = handled(x), handled(y)
    if not u or not v or u[0] != v[0] or not u[1] or not v[1] or x.args[2] is not y.args[2]:
        return False
    for a in u[1]:
        for b in v[1]:
            if a == b or b in ancestors(a) or a in ancestors(b) or "*" in (a, b):
                return False
    return True


def stripped(p, q):
    """p is q with the ends of a text removed, up to the treatment of missing texts"""
    if p.op != "call" or p.args[0] not in ("m.strip", "m.lstrip", "m.rstrip", "m.lower", "m.upper") or not p.args[1]:
        return False
    z = p.args[1][0]
    if any(w.op == "call" and w.args[0] == p.args[0] for w in walk(q)):
        return False
    u = {v for _, v in flat_cases(z) if v.op != "const"}
    v = {v for _, v in flat_cases(q) if v.op != "const"}
    return bool(u) and u == v


def quantifier(t, pos=True):
    if t.op == "not":
        return quantifier(t.args[0], not pos)
    if t.op == "exists":
        body = t.args[2]
        return ("any" if pos else "all", t.args[0], t.args[1], body if pos else Not(body))
    if t.op == "call" and t.args[0] in ("m.any", "m.all", "np.any", "np.all", "any", "all") and t.args[1]:
        k = t.args[0].split(".")[-1]
        z = t.args[1][0]
        if not pos:
            k, z = ("all" if k == "any" else "any"), Not(z)
        return (k, t.args[2], None, z)
    return None


def row_equality(t):
    """whether rows are equal in every column"""
    return t.op == "call" and t.args[0] == "m.all" and bool(dict(t.args[2]).get("axis")) and bool(t.args[1]) and t.args[1][0].op == "eq"


def named_columns(t):
    return {str(cval(z.args[1])) for z in walk(t) if z.op == "index" and z.args[1].op == "const" and isinstance(z.args[1].args[0], str)}


def part_of_call(t):
    """one of the results of a function of the package"""
    return t.op == "index" and t.args[0].op == "call" and t.args[0].args[0].startswith("valor_lite.") and t.args[1].op == "const"


def column_test(t):
    """a column of a table compared to a number"""
    if t.op == "not":
        t = t.args[0]
    return t.op in ("lt", "eq") and any(z.op == "call" and z.args[0] == "pc.field" for z in t.args) and any(is_num(z) for z in t.args)


def copies(t, p):
    while t.op == "call" and t.args[0] in ("list", "tuple", "set", "sorted", "np.array", "np.asarray") and t.args[1]:
        t = t.args[1][0]
    return t is p or t.op in ("empty",) or t is NONE


def pattern(p, q, X):
    """q is p with a well-known change of meaning (callers try both directions)"""
    # a quantity limited by something else
    if q.op == "call" and q.args[0] in ("min", "max", "np.minimum", "np.maximum") and len(q.args[1]) == 2 and p in q.args[1]:
        e = q.args[1][1] if q.args[1][0] is p else q.args[1][0]
        if not size_like(e) and leaf(e) - leaf(p):
            return "limit+"
    # a number that is replaced by a fixed one when something else is empty
    if q.op == "ite" and p in q.args[1:] and p.op == "len" and p.args[0].op == "attr":
        u = empty_test(q.args[0])
        if u is not None and u.op == "attr" and u.args[0] is p.args[0].args[0] and u is not p.args[0] and any(is_num(z) for z in q.args[1:]):
            return "depends on another container being empty"
    # selected positions against positions among the selected
    if p.op == "index" and p.args[1].op == "index" and q.op == "call" and q.args[0] in ("np.arange", "range") and len(q.args[1]) == 1 and q.args[1][0] is mk("len", p.args[1]):
        if p.args[1].args[0].op == "call" and p.args[1].args[0].args[0] == "np.unique" and p.args[0].op == "index":
            return "positions among the selected"
    # a sum of which only the last term is kept
    if last_turn(p, q):
        return "only the last turn counts"
    if p.op == "log" and q.op == "last" and p.args[0].op == "empty":
        r = q.args[2]
        while r.op == "log":
            r = r.args[0]
        if any(e.op == "each" and e.args[0] is q.args[0] for e in p.args[1]) and r.op != "phi" and interpreted(q.args[2]):
            return "only the last turn counts"
    # a test of one element of a container that now also depends on how many there are
    if is_bool(p) and q.op == "and" and p is not TRUE and conjuncts(p) < conjuncts(q):
        us = [long_test(e) for e in conjuncts(q) - conjuncts(p)]
        if all(u is not None and any(z.op == "index" and z.args[0] is u and z.args[1].op == "iv" for z in walk(p)) for u in us):
            return "depends on the number of elements"
    # a column of a matrix against the sum of its columns
    if p.op == "index" and p.args[1].op == "tuple" and len(p.args[1].args[0]) == 2 and p.args[1].args[0][0] is norm.FULL and is_num(p.args[1].args[0][1]) and cval(p.args[1].args[0][1]) != 0:
        if q.op == "call" and q.args[0] in ("m.sum", "np.sum", "m.max", "np.max", "m.mean", "np.mean", "m.min", "np.min") and q.args[1] and q.args[1][0] is p.args[0] and len(q.args[1]) == 1 and dict(q.args[2]).get("axis") in (C(1), C(-1)):
            return "all columns instead of one"
    # an element against the largest of its row
    if p.op == "index" and p.args[1].op == "tuple" and q.op == "call" and q.args[0] in ("m.max", "m.min", "np.max", "np.min", "m.sum", "np.sum", "max", "min") and len(q.args[1]) == 1 and not q.args[2]:
        r = q.args[1][0]
        if r.op == "index" and r.args[0] is p.args[0] and (r.args[1] is p.args[1].args[0][0] or r.args[1].op == "tuple" and len(r.args[1].args[0]) == len(p.args[1].args[0]) and all(u is v or v is norm.FULL for u, v in zip(p.args[1].args[0], r.args[1].args[0]))):
            return "a whole row instead of one element"
    # the largest of several unrelated numbers against that of some of them
    if p.op == "call" and p.args[0] in ("max", "min") and len(p.args[1]) > 1 and not p.args[2]:
        ps = list(p.args[1])
        qs = list(q.args[1]) if q.op == "call" and q.args[0] == p.args[0] and not q.args[2] else None
        if q.op == "ite" and set(q.args[1:]) == set(ps) and len(ps) == 2 and all(leaf(u) - leaf(v) for u in ps for v in ps if u is not v):
            c = q.args[0]
            if not (c.op == "lt" and set(c.args) == set(ps)) and not (c.op == "not" and c.args[0].op == "lt" and set(c.args[0].args) == set(ps)) and not (leaf(ps[0]) - leaf(c) and leaf(ps[1]) - leaf(c)):
                return f"one of the numbers instead of the {p.args[0]}imum"
        if qs is not None and set(qs) < set(ps):
            rest = set().union(*[leaf(z) for z in qs])
            if all(leaf(z) - rest for z in set(ps) - set(qs)):
                return f"{p.args[0]}imum of fewer numbers"
    # elements of a container sorted first
    if q.op == "call" and q.args[0] == "sorted" and not q.args[2] and len(q.args[1]) == 1:
        z = q.args[1][0]
        if z is p or z.op == "call" and z.args[0] in ("m.items", "m.keys", "m.values") and z.args[1] and z.args[1][0] is p:
            return "elements in another order" if X.appended else None
    if p.op == q.op == "tuple" and unsorted(q) is p:
        return "elements in another order" if X.appended else None
    # carried over from one turn to the next
    if p.op == "empty" and q.op == "phi":
        z = X.pb.get(q) or X.pa.get(q)
        if z is not None and z[1] is p and z[2].op == "log" and has(z[2], z[0]):
            return "what earlier turns put in is still there"
    # negative differences
    if clamped(p) is not None:
        e = clamped(p)
        if q.op == "call" and q.args[0] in ("abs", "np.abs", "np.absolute", "np.fabs") and q.args[1] and (q.args[1][0] is e or q.args[1][0] is Mul(C(-1), e)):
            return "negative values count"
    if p.op == "mul" and clamped(q) is not None:
        es = [clamped(z) for z in p.args[0]]
        if all(e is not None for e in es) and Mul(*es) is clamped(q):
            return "product of two negative values counts"
    # a mean over part of the values
    if p.op == "call" and p.args[0] in MEANS and p.args[1]:
        for z in calls_of(q, MEANS):
            v = first_of(z)
            if v is not None and v.op == "index" and v.args[0] is p.args[1][0] and is_bool(v.args[1]):
                return "mean over part of the values"
        for z in walk(q):
            # divided by how many of them pass a test
            if z.op in ("div", "safediv") and z.args[0].op == "call" and z.args[0].args[0] in ("m.sum", "np.sum") and first_of(z.args[0]) is p.args[1][0]:
                if any(w.op == "call" and w.args[0] in ("m.sum", "np.sum", "np.count_nonzero") and first_of(w) is not None and is_bool(first_of(w)) and p.args[1][0] in set(walk(first_of(w))) for w in walk(z.args[1])):
                    return "mean over part of the values"
    # a given value that is used in some cases only
    if p.op == "sym" and q.op == "ite" and p in q.args[1:] and interpreted(q.args[0]) and is_bool(q.args[0]) and p not in set(walk(q.args[0])) and leaf(q.args[0]):
        r = q.args[2] if q.args[1] is p else q.args[1]
        if r.op == "const":
            return "given value ignored"
    # keys replaced by positions
    if q.op == "call" and q.args[0] == "dict" and len(q.args[1]) == 1 and q.args[1][0].op == "call" and q.args[1][0].args[0] == "enumerate":
        z = first_of(q.args[1][0])
        while z is not None and z.op == "call" and z.args[0] in ("m.values", "list", "sorted", "set", "tuple") and z.args[1]:
            z = z.args[1][0]
        if z is p:
            return "keys replaced by positions"
    # positions among the selected rows against their positions among all
    if p.op == "index":
        for z in walk(p):
            if z.op == "index" and z.args[0].op == "call" and z.args[0].args[0] in ("np.where", "np.nonzero") and len(z.args[0].args[1]) == 1 and z.args[1].op == "tuple" and len(z.args[1].args[0]) == 2:
                A, B = z.args[0].args[1][0], z.args[1].args[0][1]
                if any(w.op == "index" and A in (w.args[1].args[0] if w.args[1].op == "tuple" else (w.args[1],)) for w in walk(B)) and mk("call", z.args[0].args[0], (B,), ()) in set(walk(q)) and z.args[0] not in set(walk(q)):
                    return "positions among the selected"
    # an aggregate against another one of the same values
    if p.op == "call" and p.args[0] in ("max", "min", "m.max", "m.min", "np.max", "np.min") and len(p.args[1]) == 1 and not p.args[2] and q.op == "div":
        z = q.args[0]
        if (z.op == "sum" or z.op == "call" and z.args[0] in ("m.sum", "sum", "np.sum")) and first_of(z) is p.args[1][0] and interpreted(q):
            return f"mean instead of the {p.args[0][-3:]}imum"
    # one element in place of every
    if p.op == "iv" and is_num(q) and p.args[0].op == "dom" and p.args[0].args[0].op == "len" and p.args[0].args[0].args[0].op in ("sym", "attr") and interpreted(p):
        return "one element instead of each"
    # a number that is no longer given
    if p.op == "len" and q is NONE and interpreted(p):
        return "value left out"
    if p.op == q.op == "call" and {p.args[0], q.args[0]} == {"str", "repr"} and len(p.args[1]) == 1 and p.args[1] == q.args[1] and kind(p.args[1][0]) not in ("scalar", "bool"):
        return "another text"
    # the first match against another one
    if p.op == "call" and p.args[0] == "m.group" and first_of(p) is not None and first_of(p).op == "call" and first_of(p).args[0] == "re.search" and q.op == "index" and q.args[0].op == "call" and q.args[0].args[0] == "re.findall" and q.args[0].args[1] == first_of(p).args[1] and is_num(q.args[1]) and cval(q.args[1]) != 0:
        return "another match than the first"
    # which of several equal values wins
    if p.op == "call" and p.args[0] in ("m.argmax", "np.argmax", "m.argmin", "np.argmin") and q.op == "add":
        for z in calls_of(q, {p.args[0]}):
            v = first_of(z)
            if v is not None and v.op == "index" and v.args[1].op == "slice" and is_num(v.args[1].args[2]) and cval(v.args[1].args[2]) == -1:
                return "another of several equal values is taken"
    if is_bool(p) and is_bool(q) and p.op == "eq":
        am = [z for z in p.args if z.op == "call" and z.args[0] in ("m.argmax", "np.argmax")]
        qq = q.args[0] if q.op == "not" else q
        if am and qq.op in ("lt", "eq") and not calls_of(q, {"m.argmax", "np.argmax"}):
            if any(z.op == "call" and z.args[0] in ("max", "m.max", "np.max") for z in qq.args):
                return "several equal values all count as the largest"
    # a function of the largest against the largest of a function
    if p.op == "call" and p.args[0] in ("max", "min") and len(p.args[1]) == 1 and not p.args[2]:
        l = p.args[1][0]
        if l.op == "log" and l.args[0].op == "empty" and len(l.args[1]) == 1 and l.args[1][0].op == "each":
            e = l.args[1][0]
            dom, iv, es = e.args
            if len(es) == 1 and es[0].op == "ent" and es[0].args[1] == "append":
                v = es[0].args[2]
                for z in calls_of(q, {p.args[0]}):
                    base = first_of(z)
                    if base is None or base is l:
                        continue
                    el = mk("index", base, iv)
                    if subst(v, {el: z}) is q and v is not el and any(c.op == "call" and c.args[0] in ("int", "float", "len") for c in walk(v)):
                        return "largest in another order"
    # elements left out
    if q.op == "log" and q.args[0].op == "empty" and len(q.args[1]) == 1 and q.args[1][0].op == "each":
        dom, iv, es = q.args[1][0].args
        if len(es) == 1 and es[0].op == "when" and len(es[0].args[1]) == 1:
            e = es[0].args[1][0]
            if e.op == "ent" and e.args[1] == "append" and e.args[2].op == "index" and e.args[2].args[0] is p and e.args[2].args[1] is iv:
                return "elements left out"
    # a choice that is no longer made
    if p.op == "ite" and q in p.args[1:]:
        r = p.args[2] if q is p.args[1] else p.args[1]
        if r.op == "sym" and not copies(q, r) and q.op not in ("const", "empty") and r in set(walk(p.args[0])):
            return "given value ignored"
    # operands of a combination of masks
    if p.op == "or" and q.op == "ite" and len(q.args) == 3:
        c, v, w = q.args
        want = {And(c, v), And(Not(c), w)}
        have = set(p.args[0])
        if len(have) == 2 and len(want & have) == 1:
            z, o = (have - want).pop(), (want - have).pop()
            if z.op == "and":
                os_ = conjuncts(o)
                if os_ < conjuncts(z) and all(part_of_call(e) or column_test(e) and all(r.op == "sym" or r.op == "not" and r.args[0].op == "eq" and NONE in r.args[0].args for r in os_) for e in conjuncts(z) - os_):
                    return "operand missing"
    if is_bool(p) and is_bool(q):
        ps = set(p.args[0]) if p.op == "and" else {p}
        qs = set(q.args[0]) if q.op == "and" else {q}
        if ps < qs and vacuous(ps, qs - ps):
            return "empty ones left out"
    if p.op in ("and", "or"):
        ps = set(p.args[0])
        qs = set(q.args[0]) if q.op == p.op else {q}
        if qs < ps and all(part_of_call(z) for z in ps):
            return "operand missing"
    if p.op == "len" and q.op == "len" and distinct(q.args[0]) and p.args[0].op == "call" and p.args[0].args[0].startswith("valor_lite.") and p.args[0] is not first_of(q.args[0]):
        return "equal elements count once"
    if first_only(p, q):
        return "done for one element only"
    # a list of one element against that element, as the argument of an outside function
    if p.op == "log" and p.args[0].op == "empty" and len(p.args[1]) == 1 and p.args[1][0].op == "ent" and p.args[1][0].args[1] == "append" and p.args[1][0].args[2] is q and q.op in ("sym", "attr") and not p.args[1][0].args[0]:
        return "element passed instead of a list of it"
    # a quotient that depends on one addend of its numerator being positive
    if p.op == "safediv" and q.op == "ite" and q.args[1].op == "div" and q.args[1].args[0] is p.args[0] and q.args[1].args[1] is p.args[1] and is_num(q.args[2]) and is_num(p.args[3]) and cval(q.args[2]) == cval(p.args[3]) and p.args[0].op == "add":
        c = q.args[0]
        if c.op == "lt" and is_num(c.args[0]) and cval(c.args[0]) == 0 and c.args[1] in p.args[0].args[0] and p.args[2] is mk("lt", c.args[0], p.args[1]):
            return "quotient depends on one addend"
    if stripped(p, q):
        return f"text changed by {p.args[0][2:]}()"
    # the largest of a container against one element of it
    if p.op == "call" and p.args[0] in ("max", "min"):
        if len(p.args[1]) == 1 and p.args[1][0].op == "log" and q.op == "index" and q.args[0] is p.args[1][0] and is_num(q.args[1]):
            return f"one element instead of the {p.args[0]}imum"
        if len(p.args[1]) == 2 and q.op == "call" and q.args[0] == p.args[0] and len(q.args[1]) == 1 and any(z.op == "index" and z.args[0] is q.args[1][0] and is_num(z.args[1]) for z in p.args[1]):
            return f"{p.args[0]}imum over other elements"
    # elements in order of size where they belong to a position
    if q.op == "index" and q.args[0].op == "call" and q.args[0].args[0] in ("sorted", "np.sort") and not q.args[0].args[2] and p.op == "index" and q.args[1].op == "iv":
        z = first_of(q.args[0])
        if z is not None and z.op == "call" and z.args[0] == "m.values" and z.args[1] and p.args[0] is z.args[1][0]:
            return "values in another order than their keys"
    # the first of several against the last
    if p.op == "last" and q.op == "fold" and p.args[0] is q.args[0]:
        phi, cs = q.args[2], flat_cases(q.args[4])
        e = subst(p.args[2], {p.args[1]: q.args[1]})
        keep = [c for c, v in cs if v is phi]
        if keep and all(v is phi or v is e for _, v in cs) and has(e, q.args[1]) and not any(has(c, q.args[1]) for c, _ in cs):
            return "first turn's value is kept"
    # added up where the same place may come several times, against written
    if p.op == "ent" and q.op == "ent" and {p.args[1], q.args[1]} == {"scatter_add", "set"} and p.args[0] == q.args[0] and p.args[2] is q.args[2]:
        return "values for the same place overwrite each other"
    # parts of one and the same matrix
    if p.op == q.op == "call" and {p.args[0], q.args[0]} <= {"m.diagonal", "m.max", "m.min", "m.sum", "m.mean"} and p.args[0] != q.args[0] and first_of(p) is not None and first_of(p) is first_of(q):
        r = q if p.args[0] == "m.diagonal" else p
        if "m.diagonal" in (p.args[0], q.args[0]) and dict(r.args[2]).get("axis") is not None:
            return "rows instead of the diagonal"
    # a number looked up for an element against the position of the element
    if p.op == "index" and q.op == "iv" and field_of(p.args[0]) and not is_num(p.args[1]) and any(z.op == "index" and z.args[1] is q for z in walk(p.args[1])) and p.args[1] is not q:
        return "position instead of what is looked up"
    # the largest turn instead of all turns together
    if p.op == "sum" and q.op == "fold" and p.args[0] is q.args[0] and q.args[4].op == "call" and q.args[4].args[0] in ("max", "min", "np.maximum", "np.minimum") and len(q.args[4].args[1]) == 2 and q.args[2] in q.args[4].args[1] and interpreted(q):
        if subst(p.args[2], {p.args[1]: q.args[1]}) in q.args[4].args[1]:
            return "the largest turn instead of all turns together"
    # turns that are not counted
    if q.op == "fold":
        cs = flat_cases(q.args[4])
        phi = q.args[2]
        one = Add(C(1), phi)
        z = next((z for z in (p.args[0] if p.op == "add" else (p,)) if z.op == "sum" and z.args[0] is q.args[0] and z.args[2] is C(1)), None)
        if z is not None and {v for _, v in cs} == {phi, one} and all(interpreted(c) for c, _ in cs):
            return "only some turns count"
    # a narrower number
    if q.op == "call" and q.args[0] == "m.astype" and len(q.args[1]) == 2 and q.args[1][1].op == "ext" and str(q.args[1][1].args[0]) in ("np.float32", "np.float16", "np.uint8", "np.int8", "np.uint16", "np.int16"):
        z = q.args[1][0]
        if z is p or p.op == "index" and z.op == "index" and z.args[0] is p.args[0] and z.args[1] is p.args[1]:
            return "narrower numbers"
    if p.op == "index" and q.op == "index" and p.args[1] is q.args[1] and q.args[0].op == "call" and q.args[0].args[0] == "m.astype" and q.args[0].args[1][0] is p.args[0] and q.args[0].args[1][1].op == "ext" and str(q.args[0].args[1][1].args[0]) in ("np.float32", "np.float16", "np.uint8", "np.int8", "np.uint16", "np.int16"):
        return "narrower numbers"
    # what a function of the package returns is left out
    if q is NONE and p.op == "call" and p.args[0].startswith("valor_lite.") and p.args[0].split(".")[-1].startswith(("decode_", "generate_", "extract_", "compute_")):
        return "value left out"
    # one turn instead of all: a list that is made at every turn
    if p.op == "log" and p.args[0].op == "empty" and q.op in ("fold", "last") and len(p.args[1]) == 1 and p.args[1][0].op == "each" and p.args[1][0].args[0] is q.args[0]:
        if q.op == "last":
            kept = [q.args[2]]
        else:
            kept = [v for _, v in flat_cases(q.args[4]) if v is not q.args[2] and not (v is NONE or v.op in ("const", "empty"))]
            if any(has(v, q.args[2]) for v in kept):
                kept = []
        put = {z.args[2] for z in walk(p) if z.op == "ent" and z.args[1] in ("append", "extend", "iadd", "+=") and isinstance(z.args[2], T)}
        back = lambda t: {t, subst(t, {q.args[1]: p.args[1][0].args[1]})}
        if kept and all(back(v) & put for v in kept):
            return "only the last turn counts"
    # some turn against the last one
    if q.op == "last":
        for z in (p.args[0] if p.op == "or" else (p,)):
            if z.op == "exists" and z.args[0] is q.args[0] and subst(z.args[2], {z.args[1]: q.args[1]}) is q.args[2]:
                return "only the last turn counts"
    # elements against the different ones among their keys
    if p.op == "len" and q.op == "len" and distinct(q.args[0]):
        u = q.args[0].args[0] if q.args[0].op == "setof" else first_of(q.args[0])
        if u is not None and u.op == "log" and u.args[0].op == "empty" and len(u.args[1]) == 1 and u.args[1][0].op == "each" and u.args[1][0].args[0] is mk("dom", p):
            es = u.args[1][0].args[2]
            if len(es) == 1 and es[0].op == "ent" and es[0].args[1] in ("append", "add") and es[0].args[2].op == "attr" and es[0].args[2].args[0] is mk("index", p.args[0], u.args[1][0].args[1]):
                return "equal elements count once"
    if p.op == "len" and q.op == "len" and distinct(q.args[0]):
        u = q.args[0]
        while u.op == "call" and u.args[1]:
            u = u.args[1][0]
        if u.op == "index" and u.args[0] is p.args[0] and u.args[1].op in ("sym", "const") and interpreted(u):
            return "equal elements count once"
    # every value of a matrix against whether there are any
    u = quantifier(p)
    if u and u[0] == "all" and u[3].op == "lt" and any(is_num(z) for z in u[3].args) and not any(top_size(z) for z in u[3].args):
        e = empty_test(q.args[0]) if q.op == "not" else None
        if e is not None and interpreted(e):
            return "asks for elements instead of their values"
    # a row against one element of it
    if u and u[3].op == q.op == "lt":
        for z in walk(u[3]):
            if z.op == "index":
                for w in walk(q):
                    if w.op == "index" and w.args[0] is z.args[0] and w.args[1].op == "tuple" and len(w.args[1].args[0]) == 2 and w.args[1].args[0][0] is z.args[1] and w.args[1].args[0][1].op in ("iv", "const") and subst(u[3], {z: w}) is q:
                        return "one element instead of all"
    # the same field of another object joins in
    if p.op == "attr" and q.op in ("and", "or") and p in q.args[0] and all(z.op == "attr" and z.args[1] == p.args[1] and interpreted(z) for z in q.args[0]):
        return "combined with another object's value"
    # the items of a dictionary in another order
    if p.op == "log" and p.args[0].op == "empty" and q.op == "call" and q.args[0] == "sorted" and len(q.args[1]) == 1:
        z = q.args[1][0]
        d = first_of(z) if z.op == "call" and z.args[0] == "m.items" else None
        if d is not None and len(p.args[1]) == 1 and p.args[1][0].op == "each" and p.args[1][0].args[0] is mk("dom", mk("len", d)):
            es = p.args[1][0].args[2]
            if len(es) == 1 and es[0].op == "ent" and es[0].args[1] == "append" and es[0].args[2].op == "tuple":
                return "elements in another order"
    # rows that are no longer left out
    if p.op in ("and", "or") and (q in p.args[0] or q.op == p.op and set(q.args[0]) < set(p.args[0])):
        rest = set(p.args[0]) - ({q} if q in p.args[0] else set(q.args[0]))
        if all(row_test(z) for z in rest):
            return "rows selected by fewer tests"
    # elements left out of a list, by a test that has nothing to do with the loops
    if X.appended and (p is TRUE or is_bool(p) and conjuncts(p) < conjuncts(q)) and is_bool(q):
        extra = conjuncts(q) - (set() if p is TRUE else conjuncts(p))
        if extra and all(unrelated_test(z, X) for z in extra):
            return "elements left out"
        if len(extra) == 1 and p is TRUE:
            e = extra.pop()
            es = list(e.args[0]) if e.op == "or" else [e]
            if any(how_many(z) for z in es) and all(how_many(z) or none_test(z) for z in es):
                return "elements left out"
    # rows told apart by all of their columns, against by some of them
    if q.op in ("call", "or", "exists", "index") and is_bool(p) and any(row_equality(z) for z in walk(p)) and not any(z.op == "call" and z.args[0] == "np.isin" for z in walk(p)):
        w = q if q.op == "call" else next((z for z in walk(q) if z.op == "call" and z.args[0] in ("np.isin", "m.all") and any(y.op == "call" and y.args[0] == "np.isin" for y in walk(z))), None)
        if w is not None and w.args[0] == "m.all" and w.args[2] and w.args[1][0].op == "call" and w.args[1][0].args[0] == "np.isin":
            return "elements compared one by one instead of as rows"
        if w is not None and w.args[0] == "np.isin":
            cp, cq = named_columns(p), named_columns(q)
            if cq < cp:
                return "rows are told apart by " + ", ".join(sorted(cq)) + " only"
    # every / some
    u, v = quantifier(p), quantifier(q)
    if u and v and u[0] != v[0] and u[1] == v[1] and u[3] is (v[3] if u[2] is v[2] or v[2] is None else subst(v[3], {v[2]: u[2]})):
        return "some / every"
    return None


def how_many(t):
    """elements holding more or less than some number of something"""
    if t.op == "not":
        t = t.args[0]
    if t.op != "lt":
        return False
    for z, k in (t.args, t.args[::-1]):
        if z.op == "len" and any(v.op == "iv" for v in walk(z.args[0])) and interpreted(t):
            if is_num(k):
                return cval(k) > 1 or cval(k) == 1 and k is t.args[0]
            return not leaf(k) & leaf(z) or k.op in ("sym", "attr")
    return False


def none_test(t):
    if t.op == "not":
        t = t.args[0]
    return t.op == "eq" and NONE in t.args and any(z.op == "sym" for z in t.args)


def row_test(t):
    """a test of the rows of a matrix"""
    if t.op == "not":
        t = t.args[0]
    return t.op == "call" and t.args[0] in ("m.all", "m.any", "np.all", "np.any") and bool(dict(t.args[2]).get("axis")) and bool(t.args[1]) and t.args[1][0].op in ("lt", "eq") and interpreted(t)


def unrelated_test(t, X):
    """some value of an array that the loops of the list do not run over"""
    u = quantifier(t)
    if not u or u[2] is not None or not interpreted(t):
        return False
    z = u[3]
    while z.op in ("index", "not"):
        z = z.args[0]
    mine = leaf(z)
    doms = getattr(X, "doms", None)
    return bool(mine) and doms is not None and not mine & doms


def blocks(t):
    """(matrix, {(rows, columns): count}) when t is a sum of whole blocks of one matrix that start at 0 or 1"""
    base, out = None, {}
    for e in t.args[0] if t.op == "add" else (t,):
        k = 1
        if e.op == "mul" and len(e.args[0]) == 2 and is_num(e.args[0][0]):
            k, e = cval(e.args[0][0]), e.args[0][1]
        one = False
        if e.op == "call" and e.args[0] in ("m.sum", "np.sum") and len(e.args[1]) == 1 and not e.args[2]:
            e = e.args[1][0]
        else:
            one = True
        parts = []
        if e.op == "index":
            key = e.args[1].args[0] if e.args[1].op == "tuple" else (e.args[1],)
            if len(key) > 2:
                return None
            for z in key:
                if is_num(z) and cval(z) == 0:
                    parts.append("0")
                elif z.op == "slice" and (z.args[1], z.args[2]) == (NONE, NONE) and (z.args[0] is NONE or is_num(z.args[0]) and cval(z.args[0]) in (0, 1)):
                    parts.append("0+" if z.args[0] is NONE or cval(z.args[0]) == 0 else "+")
                else:
                    return None
            e = e.args[0]
        elif one:
            return None
        if one and parts != ["0", "0"]:
            return None
        if base is not None and e is not base:
            return None
        base = e
        parts += ["0+"] * (2 - len(parts))
        for r in parts[0].replace("0+", "01").replace("+", "1"):
            for c in parts[1].replace("0+", "01").replace("+", "1"):
                out[r, c] = out.get((r, c), 0) + k
    return base, {p: n for p, n in out.items() if n}


NUMERIC = {"max": max, "np.maximum": max, "min": min, "np.minimum": min, "abs": abs, "np.abs": abs}
ARITH = {"add", "mul", "div", "pow", "floordiv", "mod"}


def operands(t, out):
    """the parts an arithmetic expression is made of; False when it is none"""
    if is_num(t):
        return True
    if t.op in ("add", "mul"):
        return all(operands(z, out) for z in t.args[0])
    if t.op in ("div", "pow", "floordiv", "mod"):
        return all(operands(z, out) for z in t.args)
    if t.op == "call" and t.args[0] in NUMERIC and len(t.args[1]) == (1 if "abs" in t.args[0] else 2) and not t.args[2]:
        return all(operands(z, out) for z in t.args[1])
    if is_bool(t) or not interpreted(t) or t.op in ("const", "log", "phi", "tuple", "fold", "last", "sum", "ite", "empty"):
        return False
    out.add(t)
    return True


def value(t, env):
    if is_num(t):
        return Fraction(cval(t))
    if t in env:
        return env[t]
    if t.op in ("add", "mul"):
        vs = [value(z, env) for z in t.args[0]]
        return sum(vs) if t.op == "add" else math.prod(vs)
    if t.op == "call":
        return NUMERIC[t.args[0]](*[value(z, env) for z in t.args[1]])
    u, v = (value(z, env) for z in t.args)
    if t.op == "div":
        return u / v
    if t.op == "floordiv":
        return u // v
    if t.op == "mod":
        return u % v
    if v.denominator != 1 or abs(v) > 6:
        raise ValueError
    return u ** int(v)


def another_function(x, y):
    """two arithmetic expressions over the same parts that agree for no ordinary values of them"""
    if x.op not in ARITH and y.op not in ARITH and "call" not in (x.op, y.op):
        return False
    px, py = set(), set()
    if not operands(x, px) or not operands(y, py) or not px or not py or not (px == py or px > py or py > px):
        return False
    if px != py and any(z.op in ("sym", "len", "attr", "iv", "dom") for z in px ^ py):
        return False
    ps = sorted(px | py, key=lambda t: t.dig)
    if len(ps) > 6:
        return False
    n = 0
    for k in range(1, 25):
        # primes keep the values in general position
        env = {t: Fraction(PRIMES[(k * 7 + i * 11) % len(PRIMES)], 1 if size_like(t) or k % 2 else 13) for i, t in enumerate(ps)}
        if len(set(env.values())) < len(ps):
            continue
        try:
            if value(x, env) == value(y, env):
                return False
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        n += 1
    return n >= 8


PRIMES = [z for z in range(2, 200) if all(z % d for d in range(2, z))]


def _decisive(x, y, a, b, X, loose=False):
    if another_function(x, y):
        return "another function of the same values"
    if x.op == "bag" and y.op == "bag" and x.args[0] == "writes":
        for p, q, w in ((x, y, "now"), (y, x, "no longer")):
            have = {h[0] for z in p.args[1] for h in [in_handler(z, X)] if h}
            more = {h[0] for z in q.args[1] for h in [in_handler(z, X)] if h}
            if more and not have:
                return f"{sorted(more)[0].split('.')[-1]} is {w} called in an exception handler"
    if other_handler(x, y):
        return "done for other exceptions"
    # a mean that was only taken of something
    if x.op == "ite" and y in x.args[1:] and any(is_num(z) for z in x.args[1:]) and y.op == "call" and (y.args[0] in MEANS or y.args[0] == "float" and y.args[1] and y.args[1][0].op == "call" and y.args[1][0].args[0] in MEANS):
        if empty_test(x.args[0]) is not None:
            return "mean of nothing"
    bx, by = blocks(x), blocks(y)
    if bx and by and bx[0] is by[0] and bx[1] != by[1]:
        return "sum over other parts of the matrix"
    if part_of_turns(x, y):
        return "only some turns of the loop count"
    for p, q, w in ((x, y, "added"), (y, x, "dropped")):
        k = pattern(p, q, X)
        if k:
            return k if k[-1] != "+" else k[:-1] + " " + w
    if x.op != "bag" and y.op != "bag":
        X.local = True
        try:
            d = X.diff(x, y)
        finally:
            X.local = False
        if d and all(z.k == "D" for z in d):
            return d[0].why
    if x.op == "bag" and x.args[0] in ("and", "or"):
        xs, ys = x.args[1], y.args[1]
        if (not xs or not ys) and all(plain_test(t, a, b) for t in xs + ys):
            return "test " + ("dropped" if xs else "added")
        return None
    if is_bool(x) and is_bool(y):
        for p, q, w in ((x, y, "dropped"), (y, x, "added")):
            if q is TRUE or q is FALSE:
                ats = p.args[0] if p.op in ("and", "or") else (p,)
                if all(plain_test(t, a, b) for t in ats):
                    return "test " + w
    w = narrowed(x, y, a) or growth(x, y) or cut_short(x, y, a, b) or recursion(x, y)
    if w:
        return w
    if size_like(x) or size_like(y):
        return None
    for p, q, w in ((x, y, "dropped"), (y, x, "added")):
        k = wrap(p, q)
        if k:
            return f"{k} {w}"
    w = dependence(x, y, X, *((a, b) if loose else (x, y)))
    if w:
        return w
    for p, q in ((x, y), (y, x)):
        # what there is when a container holds something
        if q.op == "ite" and p.op not in ("ite", "phi", "fold", "last", "const"):
            c, v, r = q.args
            if c.op == "not":
                c, v, r = c.args[0], r, v
            if empty_test(c) is not None and c.op == "lt" and v is not p and v.op not in ("ite", "phi", "const"):
                w = _decisive(p, v, a, b, X, loose) if q is y else _decisive(v, p, a, b, X, loose)
                if w:
                    return w
    return novel_string(x, y, a)


def recursion(x, y):
    """files of subdirectories; shapes that are not the given ones"""
    def deep(t):
        out = set()
        for z in walk(t):
            if z.op == "call" and z.args[0] in ("glob.glob", "glob.iglob", "m.glob", "m.rglob", "os.walk", "m.iterdir", "os.listdir", "os.scandir"):
                star = any(v.op == "const" and isinstance(v.args[0], str) and "**" in v.args[0] for v in walk(z))
                out.add(z.args[0] in ("m.rglob", "os.walk") or star and (z.args[0] == "m.glob" or dict(z.args[2]).get("recursive") is TRUE))
        return out
    SHAPES = {"shapely." + n for n in ("convex_hull", "envelope", "buffer", "simplify", "minimum_rotated_rectangle", "oriented_envelope", "concave_hull", "minimum_bounding_circle")}
    u, v = ({z.args[0] for z in walk(t) if z.op == "call" and z.args[0] in SHAPES} for t in (x, y))
    if u != v:
        return f"{sorted(u ^ v)[0]} of a shape"
    u, v = deep(x), deep(y)
    if len(u) == len(v) == 1 and u != v:
        return "files of subdirectories " + ("too" if True in v else "no longer")
    return None


def size_like(t):
    if t.op in ("len", "dom", "zip", "iv", "wdom", "bag"):
        return True
    if t.op == "attr" and (t.args[1].startswith("number_of") or t.args[1] in SIZE_ATTRS):
        return True
    if t.op == "index" and t.args[0].op == "attr" and t.args[0].args[1] == "shape":
        return True
    if t.op in ("add", "mul", "max", "min"):
        return any(size_like(z) for z in t.args[0])
    if t.op == "call" and t.args[0] in ("max", "min", "m.count_rows", "m.count_tables", "zip", "range", "m.sum", "m.any", "m.all"):
        return True
    return False


def plain_test(t, a, b):
    """a test that is not about sizes, absence or types"""
    if not interpreted(t):
        return False
    if t.op in ("and", "or"):
        return all(plain_test(z, a, b) for z in t.args[0])
    if t.op == "not":
        return plain_test(t.args[0], a, b)
    if t.op in ("lt", "eq"):
        if any(z is NONE for z in t.args):
            return False
        if subset_test(t):
            return True
        return not any(top_size(z) for z in t.args)
    if t.op == "call" and t.args[0] in ("np.isin", "np.isclose"):
        return True
    if t.op == "isinst":
        return t.args[1].op == "ext" and str(t.args[1].args[0]) in norm.UNIONS and any(z.op == "sym" for z in walk(t.args[0]))
    if t.op == "in":
        return t.args[1].op in ("sym", "tuple", "const") or norm._static_list(t.args[1]) is not None
    return False


def subset_test(t):
    """|A| == |A & B|"""
    if t.op == "not":
        return subset_test(t.args[0])
    if t.op != "eq" or any(z.op != "len" for z in t.args):
        return False
    u, v = (z.args[0] for z in t.args)
    return any(p.op == "and" and len(p.args[0]) == 2 and q in p.args[0] for p, q in ((u, v), (v, u)))


def top_size(t):
    if size_like(t):
        return True
    if t.op in ("add", "mul"):
        return any(top_size(z) for z in t.args[0])
    if t.op == "div":
        return any(top_size(z) for z in t.args)
    if t.op == "call" and t.args[0] in TRIVIAL and t.args[1]:
        return top_size(t.args[1][0])
    return False


TEXT_ATTRS = {"stem", "name", "suffix", "parent", "uid", "label", "path"}


NEUTRAL = {"m.combine_chunks", "list", "tuple", "np.asarray", "np.array", "m.copy"}


def wrap(p, q):
    """p is a non-trivial function of q"""
    if p.op == "call" and p.args[0] in ("m.slice", "m.drop_null", "m.head", "m.tail", "m.take") and p.args[1] and interpreted(p):
        z = p.args[1][0]
        while z.op == "call" and z.args[0] in NEUTRAL and z.args[1]:
            z = z.args[1][0]
        if z is q and not (p.args[0] in ("m.slice", "m.head") and any(v is mk("len", q) for v in p.args[1][1:])):
            return p.args[0]
    if p.op == "index" and p.args[0] is q and p.args[1].op == "slice" and q.op == "call":
        lo, hi, st = p.args[1].args
        if (lo is NONE or is_num(lo) and cval(lo) == 0) and st is NONE and not is_num(hi) and hi is not NONE and hi is not mk("len", q) and interpreted(hi):
            return "slice"
    if p.op == "index" and p.args[0] is q:
        k = p.args[1]
        ks = k.args[0] if k.op == "tuple" else (k,)
        for z in ks:
            if z.op == "slice" and z is not norm.FULL and z is not mk("slice", C(0), NONE, NONE):
                if all(v is NONE or v.op == "const" for v in z.args):
                    return "slice"
            if is_bool(z):
                return "filter"
    if p.op == "call" and p.args[1] and p.args[1][0] is q:
        f = p.args[0]
        if f in ("sorted", "reversed", "np.sort"):
            return f if ordered_value(q) else None
        if f in ("int", "float") and q.op == "attr" and q.args[1] in TEXT_ATTRS:
            return f"conversion {f}()"
        if f in ("np.unique", "m.lower", "m.upper", "m.strip", "abs", "np.abs", "np.round", "m.round", "np.floor", "np.ceil", "round", "np.flip", "m.cumsum", "np.cumsum", "m.title", "set", "np.sqrt", "np.log", "m.slice", "m.filter", "m.casefold"):
            return f
    if p.op == "setof" and p.args[0] is q:
        return "uniqueness"
    if p.op == "call" and p.args[0] in ("sorted", "list", "tuple", "np.sort") and p.args[1] and q.op == "sym" and distinct(p.args[1][0]):
        z = p.args[1][0]
        if (z.args[0] if z.op == "setof" else first_of(z)) is q:
            return "uniqueness"
    return None


def is_list(t):
    """a list that is built by appending"""
    if t.op != "log" or t.args[0].op != "empty":
        return False
    todo, out = list(t.args[1]), False
    while todo:
        e = todo.pop()
        if e.op in ("each", "when"):
            todo += e.args[-1]
        elif e.op == "ent" and e.args[1] == "append" and not e.args[0]:
            out = True
        else:
            return False
    return out


def ordered_value(q):
    """a sequence whose order the caller chose"""
    return q.op in ("sym", "attr", "index") and kind(q) in ("list", "array", "unknown", "tuple") and q.op == "sym"


def dependence(x, y, X, a, b):
    from .judge import leaves
    if any(z.op == "slice" for z in (x, y)):
        return None
    if any(p.op == "log" and p.args[0] is q and q.op in ("attr", "sym") and "self" in str(q.args[0]) and all(e.op == "ent" and e.args[1] == "append" for e in p.args[1]) for p, q in ((x, y), (y, x))):
        # the state of an attribute before and after something was appended
        return None
    if x.op == y.op == "each" and x.args[0] is not y.args[0] and {e.args[1] for e in walk(x) if e.op == "ent"} != {e.args[1] for e in walk(y) if e.op == "ent"}:
        # a container written in place, or built anew
        return None
    lx, ly = leaves(bare(x), {}), leaves(bare(y), {})
    ax, ay = every(a, X.pa), every(b, X.pb)
    cx = {z.args[0] for z in walk(x) if z.op == "call" and z.args[0].startswith("valor_lite.")}
    cy = {z.args[0] for z in walk(y) if z.op == "call" and z.args[0].startswith("valor_lite.")}
    if cx != cy:
        return None
    ps = lambda l: {z for z in l if "." not in z and z != "self"}
    for z in sorted(ps(lx) - ay):
        return f"no longer depends on {z}"
    for z in sorted(ps(ly) - ax):
        return f"now depends on {z}"
    return None


def bare(t):
    """without the length a count is padded to"""
    m = {z: mk("call", z.args[0], z.args[1], tuple(kv for kv in z.args[2] if kv[0] != "minlength")) for z in walk(t) if z.op == "call" and z.args[0] == "np.bincount"}
    return subst(t, m) if m else t


def every(t, phis):
    """all inputs that occur in t"""
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "sym":
            out.add(x.args[0])
        if x.op == "phi" and x in phis:
            todo.extend(phis[x])
        todo.extend(kids(x))
    return out


def columns(t, base, out, seen=None):
    """constant columns under which base occurs in t (None: bare)"""
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    if t is base:
        out.add(None)
        return
    if t.op == "index" and t.args[0] is base:
        k = t.args[1]
        if k.op == "tuple" and k.args[0][0] is norm.FULL and len(k.args[0]) == 2 and k.args[0][1].op == "const":
            out.add(cval(k.args[0][1]))
            return
        out.add(None)
    if t.op in ("len", "iv", "dom") or t.op == "attr" and t.args[1] in SIZE_ATTRS:
        return
    for z in kids(t):
        columns(z, base, out, seen)


def growth(x, y):
    """piecewise linear in one and the same quantity, but different where it is large"""
    ps = {z for z in linear_atoms(x)} | {z for z in linear_atoms(y)}
    if len(ps) != 1:
        return None
    p = ps.pop()
    if size_like(p) or is_bool(p) or kind(p) not in ("scalar", "unknown"):
        return None
    u, v = asym(x, p), asym(y, p)
    if u is not None and v is not None and u != v:
        return f"{show(p, 4)} counts differently"
    return None


def linear_atoms(t):
    if is_num(t):
        return
    if t.op in ("add", "mul"):
        for z in t.args[0]:
            yield from linear_atoms(z)
    elif t.op == "call" and t.args[0] in ("max", "min") and len(t.args[1]) > 1:
        for z in t.args[1]:
            yield from linear_atoms(z)
    else:
        yield t


def asym(t, p):
    """(slope, offset) of t for large p"""
    if t is p:
        return 1, 0
    if is_num(t):
        return 0, cval(t)
    if t.op == "add":
        r = [asym(z, p) for z in t.args[0]]
        return None if None in r else (sum(z[0] for z in r), sum(z[1] for z in r))
    if t.op == "mul":
        k, q = 1, None
        for z in t.args[0]:
            if is_num(z):
                k *= cval(z)
            elif q is None:
                q = asym(z, p)
            else:
                return None
        return None if q is None else (q[0] * k, q[1] * k)
    if t.op == "call" and t.args[0] in ("max", "min") and len(t.args[1]) > 1:
        r = [asym(z, p) for z in t.args[1]]
        return None if None in r else (max if t.args[0] == "max" else min)(r)
    return None


def cut_short(x, y, a, b):
    """a loop that gathers something now ends early (or no longer does)"""
    for p, q, t, w in ((x, y, a, "ends early"), (y, x, b, "no longer ends early")):
        if q.op != "until" or q.args[0] is not p or not any(z.op == "iv" and z.args[0] is p for z in walk(q.args[1])):
            continue
        for z in walk(t):
            if z.op == "sum" and z.args[0] is p:
                return "loop " + w
            if z.op == "each" and z.args[0] is p and any(gathers(e) for e in z.args[2]):
                return "loop " + w
    return None


def gathers(e):
    if e.op == "each":
        return any(gathers(z) for z in e.args[2])
    if e.op == "when":
        return any(gathers(z) for z in e.args[1])
    return e.op == "ent" and (e.args[1] in ("append", "extend", "iadd", "add", "+=") or e.args[1].startswith("effect call:m.write") or not (isinstance(e.args[2], T) and e.args[2].op == "const"))


def shallow(t, stop):
    seen, todo = set(), [t]
    while todo:
        z = todo.pop()
        if z in seen:
            continue
        seen.add(z)
        yield z
        if z.op == "call" and z.args[0] in stop or z.op in ("len", "dom", "iv"):
            continue
        todo.extend(kids(z))


def narrowed(x, y, a):
    """only one column of something is looked at where all were"""
    if x.op == "call" and x.args[0] == "m.all" and not any(z.op == "call" and z.args[0] == "m.all" for z in walk(y)):
        for st in shallow(x, ("np.unique",)):
            cols = norm._static_list(st.args[1][0]) if st.op == "call" and st.args[0] == "np.column_stack" and st.args[1] else None
            if cols and len(set(cols)) > 1:
                ys = set(shallow(y, ("np.unique",)))
                k = [c for c in cols if c in ys]
                if 0 < len(k) < len(cols) and st not in ys:
                    return f"only {len(k)} of {len(cols)} columns are compared"
    for base in walk(y):
        if base.op == "call" and base.args[0] == "np.column_stack":
            u = base
        else:
            continue
        tops = [z for z in walk(x) if z is u or (z.op == "call" and z.args[0] == "m.astype" and z.args[1][0] is u)]
        for tpt in tops:
            cx, cy = set(), set()
            columns(x, tpt, cx)
            columns(y, tpt, cy)
            n = norm._static_list(u.args[1][0])
            if None in cx and cy and None not in cy and n is not None and len(cy) < len(n):
                return f"only columns {sorted(cy)} of {len(n)} are compared"
    return None


def novel_string(x, y, a):
    known = {z.args[0] for z in walk(a) if z.op == "const" and isinstance(z.args[0], str)}
    parts = [str(v.args[0]) for z in walk(a) if z.op == "fstr" for v in kids(z) if v.op == "const"]

    def strs(t):
        out, todo, seen = set(), [t], set()
        while todo:
            z = todo.pop()
            if z in seen:
                continue
            seen.add(z)
            if z.op == "fstr" or (z.op == "call" and z.args[0] in ("m.astype", "getattr", "hasattr", "open", "np.einsum")):
                continue
            if z.op == "const" and isinstance(z.args[0], str):
                out.add(z.args[0])
            todo.extend(v for v in kids(z))
        return out

    new = {z for z in strs(y) - known if not any(z in w for w in parts)}
    if new and strs(x) <= strs(y):
        return f"singles out {sorted(new)!r}"
    return None
