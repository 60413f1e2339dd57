"""Whole-package judgement: every function against its reference definition.

Modular step: a function is compared with all functions that exist on both
sides kept as primitives.  Functions whose modular comparison is not clean are
"changed"; entry points are then compared again with the changed functions
inlined, so that code moved between functions is judged by what the entry
point does.
"""
import ast
import difflib
import json
import os
import re
from itertools import product
from .ir import *
from .norm import *
from . import norm, interp
from .front import Repo, Func
from .interp import analyze
from .cmp import Cmp, Cfg, Diff, settle, interpreted, is_size, BoolForm, keys_of
from . import cmp as cmpm
from . import order, alias
from .segment import pieces
from .local import Local, decide, plain_test, size_like
from .equiv import (MUTATORS, Equiv, Ob, SAT, VIO, UND, verdict, detail, short, oned, raise_groups, event_recs, is_effect, exc_name, diff_bool)

HERE = os.path.dirname(os.path.abspath(__file__))
STABLE = set(json.load(open(os.path.join(HERE, "stable.json"))))

CFG = Cfg(
    nonneg={"scores", "score", "ious", "iou", "counts", "score_thresholds", "iou_thresholds", "n_labels", "n_datums", "number_of_labels"},
    idlike=set(),
    integer={"n_labels", "n_datums", "number_of_labels", "limit", "offset", "batch_size", "rows_per_file"},
    oned={"score_thresholds", "iou_thresholds"},
)


def union_types(node):
    """names of types that occur beside others in the annotations of the parameters"""
    out = set()
    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        for n in ast.walk(p.annotation) if p.annotation is not None else ():
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
                both = [ast.unparse(z) for z in (n.left, n.right)]
                if "None" not in both:
                    out.update(both)
    return out


class Judge:
    def __init__(self, ref_root, repo_root="/repo/src", repo=None, ref=None):
        self.ref = ref or Repo(ref_root)
        self.repo = repo or Repo(repo_root)
        self.cfg = CFG
        self.rf = {f.qual: f for f in self.ref.all_funcs()}
        self.af = {f.qual: f for f in self.repo.all_funcs()}
        self.common = {q for q in self.rf if q in self.af and same_sig(self.rf[q], self.af[q])}
        self.mod, self._anew = {}, {}
        self.full = {}
        self._impure = {}
        self._aliasing = {}
        self.analysed = set()

    def aliasing(self, R):
        r = self._aliasing.get(id(R))
        if r is None:
            ts = [m.tree for m in R.modules.values()]
            r = self._aliasing[id(R)] = (alias.attribute_kinds(ts), alias.generator_names(ts), alias.record_names(ts))
        return r

    def filled(self):
        """functions that fill a parameter, in both versions"""
        r = self._aliasing.get("filled")
        if r is None:
            a, b = (alias.filled_params([m.tree for m in R.modules.values()]) for R in (self.ref, self.repo))
            r = self._aliasing["filled"] = {k: v for k, v in a.items() if b.get(k) == v}
        return r

    # ------------------------------------------------------------ summaries
    def pair(self, qual, prims):
        key = (qual, frozenset(prims))
        if key in self.full:
            return self.full[key]
        norm.KINDS.clear(); norm.RANKS.clear()
        fr, fa = self.rf[qual], self.af[qual]
        prims = set(prims) - {qual}
        A = analyze(self.ref, fr, cls=fr.cls, prims=prims)
        B = analyze(self.repo, fa, cls=fa.cls, prims=prims)
        self.analysed.add(qual)
        self.full[key] = (A, B)
        return A, B

    def piece(self, qual, prims, na, nb):
        """the same part of two versions of a function, each analysed as a function of its own"""
        norm.KINDS.clear(); norm.RANKS.clear()
        fr, fa = self.rf[qual], self.af[qual]
        kinds = {}
        whole = self.full.get((qual, frozenset(prims)))
        if whole:
            for S in whole:
                for n, ks in S.namekinds.items():
                    kinds.setdefault(n, set()).update(ks)
            kinds = {n: next(iter(ks)) for n, ks in kinds.items() if len(ks) == 1 and n not in fr.params() and ks != {"unknown"}}
        prims = set(prims) - {qual}
        out = []
        for R, f, n in ((self.ref, fr, na), (self.repo, fa, nb)):
            g = Func(n, f.module, f.cls, f.outer)
            out.append(analyze(R, g, cls=f.cls, prims=prims, kinds=kinds))
        return out

    def focus(self, qual, prims, obs):
        """second look at an undecided function: only the part the edit touches"""
        if not any(o.verdict != SAT for o in obs) or any(o.verdict == VIO for o in obs):
            return obs
        hit = None
        for na, nb, what, lev in pieces(self.rf[qual].node, self.af[qual].node):
            try:
                r = self.compare(qual, prims, (na, nb), lev.matter)
            except RecursionError:
                continue
            vs = {o.verdict for o in r}
            if vs <= {SAT}:
                for o in obs:
                    if o.verdict == UND:
                        o.verdict, o.detail = SAT, what + " is equivalent"
                return obs
            if VIO in vs and hit is None and (lev.same or lev.nearly):
                own = {z.id for n in (na, nb) for b in n.body for z in ast.walk(b) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store)}
                # a name given another value: what happens to the object it had is not what is asked
                o = next((o for o in r if o.verdict == VIO and not (" effect on " in o.name and o.name.split(" effect on ")[1] in own) and (lev.same or any(k in o.detail for k in ("D[limit ", "D[min added", "D[max added")))), None)
                if o is not None:
                    hit = (what, o)
        if hit:
            for o in obs:
                if o.verdict == UND:
                    o.verdict, o.detail = VIO, f"{hit[0]}: {hit[1].name.split(' ', 1)[-1]}: {hit[1].detail}"
        return obs

    def impure(self, q, busy=()):
        """may a call of q have an effect beyond its value (or raise)?"""
        if q in self._impure:
            return self._impure[q]
        if q in busy:
            return False
        f = self.rf.get(q)
        if f is None or all(isinstance(b, ast.Pass) or isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) for b in f.node.body):
            # outside the package, or a protocol
            return True
        saved = dict(norm.KINDS)
        A = analyze(self.ref, f, cls=f.cls, prims=self.common - {q})
        norm.KINDS.clear()
        norm.KINDS.update(saved)
        r = any(e.kind == "raise" for e in A.events)
        r = r or any(A.final.get(k) is not A.init.get(k) for k in A.final)
        if not r:
            for e in A.events:
                if e.kind == "call" and e.term.op == "call":
                    n = e.term.args[0]
                    if n in self.rf:
                        if self.impure(n, busy + (q,)):
                            r = True
                            break
                    elif is_effect(n):
                        r = True
                        break
        self._impure[q] = r
        return r

    def certain(self, q, busy=()):
        """does every call of q that returns call something outside the package (or unknown)?"""
        if q == "()" or q.endswith(".ClientWrapper.__call__"):
            return True
        f = self.rf.get(q)
        if f is None or q in busy:
            return False
        k = ("certain", q)
        if k not in self._impure:
            saved = dict(norm.KINDS)
            A = analyze(self.ref, f, cls=f.cls, prims=self.common - {q})
            norm.KINDS.clear()
            norm.KINDS.update(saved)
            self._impure[k] = any(e.kind == "call" and e.term.op == "call" and not any(c[0] in ("when", "each", "except") for c in e.ctx) and self.certain(e.term.args[0], busy + (q,)) for e in A.events)
        return self._impure[k]

    def reads(self, q, busy=()):
        """names of the attributes that q and the package functions it mentions may look at"""
        f = self.rf.get(q)
        k = ("reads", q)
        if f is None:
            return None
        if k not in self._impure:
            import ast
            out, todo, seen = set(), [q], {q}
            while todo:
                for n in ast.walk(self.rf[todo.pop()].node):
                    name = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
                    if name is None:
                        continue
                    out.add(name)
                    for z in self.rf:
                        if z not in seen and z.rsplit(".", 1)[-1] == name:
                            seen.add(z)
                            todo.append(z)
            self._impure[k] = out
        return self._impure[k]

    def effect_pred(self, e):
        t = e.term
        if t.op != "call":
            return False
        n = t.args[0]
        if n.startswith("decorated:"):
            return True
        if n in self.rf:
            return self.impure(n)
        if n in self.af:
            return True
        if e.extra == "stmt" and n not in MUTATORS:
            # a value that is thrown away: the call is there for its effect
            return True
        return is_effect(n)

    # ------------------------------------------------------------ comparison
    def compare(self, qual, prims, nodes=None, matter=None):
        """obligations of one function: results, effects on arguments, raises, effects"""
        A, B = self.pair(qual, prims) if nodes is None else self.piece(qual, prims, *nodes)
        cfg = self.cfg
        X = Cmp(cfg, A.phidef, B.phidef)
        cfg.certain, cfg.reads = self.certain, self.reads
        f = B.func
        norm.UNIONS = union_types(f.node) if qual in self.rf and union_types(f.node) == union_types(self.rf[qual].node) else set()
        where = f"{f.file}:{f.node.lineno} ({f.qual})"
        s = short(qual)
        obs = []

        def add(aspect, name, ds, pair=None, run=None):
            if pair is not None and ds and verdict(ds) == UND:
                d = lost_dependence(*pair, X)
                if d:
                    ds = [d]
                elif run is not None:
                    d = repair(X, pair, run)
                    if d:
                        ds = [d]
            gaps = None
            if pair is not None and ds and verdict(ds) == UND:
                try:
                    gaps = Local(X).pairs(*pair)
                    d = decide(gaps, *pair, X, run)
                    if not d and run is not None:
                        d = same_states(X, *pair)
                except (TypeError, AttributeError, IndexError, KeyError):
                    if os.environ.get("VERIF_DEBUG"):
                        raise
                    gaps, d = gaps or [], None
                if d:
                    ds, gaps = [d], None
            o = Ob(f"{s} {name}", verdict(ds), where, detail(ds))
            if gaps is not None:
                o.gaps = gaps
                o.detail = f"{len(gaps)} gaps " + " ".join(map(repr, gaps)) + " :: " + o.detail
            o.aspect = aspect
            o.qual = qual
            obs.append(o)

        a, b = oned(A.ret, cfg), oned(B.ret, cfg)
        if a.op == "tuple" and b.op == "tuple" and len(a.args[0]) == len(b.args[0]):
            for i, (x, y) in enumerate(zip(a.args[0], b.args[0])):
                add("ret", f"result[{i}]", settle(X.diff(x, y)), (x, y), X.diff)
        elif not (a is NONE and b is NONE):
            add("ret", "result", X.diff(a, b), (a, b), X.diff)
        for k in A.final:
            x, y = A.final[k], B.final.get(k)
            if y is None or (x is A.init.get(k) and y is B.init.get(k)):
                continue
            if matter is not None and k not in matter:
                continue
            x, y = oned(x, cfg), oned(y, cfg)
            add("mut", f"effect on {k}", X.diff(x, y), (x, y), X.diff)
        # raises
        res = [(raise_groups(A, ok, cfg), raise_groups(B, ok, cfg)) for ok in (False, True)]
        for n in sorted(set(res[0][0][0]) | set(res[0][1][0])):
            best = None
            for ga, gb in res:
                ds = diff_bool(ga[0].get(n, FALSE), gb[0].get(n, FALSE), X, 0)
                if not ds:
                    best = []
                    break
                if best is None or any(d.k == "S" for d in ds):
                    best = ds
            ga, gb = res[0]
            x, y = ga[0].get(n, FALSE), gb[0].get(n, FALSE)
            if verdict(best) == UND:
                d = check_lost(x, y, X)
                if d:
                    best = [d]
            if verdict(best) == UND and y is FALSE and interpreted(x) and loop_raises(gb, n) <= loop_raises(ga, n):
                best = [Diff("D", x, y, "never raised")]
            add("raise", f"raises {short(n)} exactly when", best, (x, y), lambda p, q: diff_bool(p, q, X, 0))
        if res[0][0][1] or res[0][1][1]:
            best = None
            for ga, gb in res:
                ds = X.records(ga[1], gb[1], 0, NONE, NONE)
                if not ds:
                    best = []
                    break
                if best is None or any(d.k == "S" for d in ds):
                    best = ds
            add("raise", "raises inside loops", best, (effect_term(res[0][0][1]), effect_term(res[0][1][1])), None)
        best, n = None, 0
        for ok in (False, True):
            ra = event_recs(A, ("call",), self.effect_pred, ok)
            rb = event_recs(B, ("call",), self.effect_pred, ok)
            n = len(ra)
            ds = X.records(ra, rb, 0, NONE, NONE)
            if not ds:
                best = []
                break
            if best is None or (any(d.k == "D" for d in best) and not any(d.k == "D" for d in ds)):
                best = ds
        if n or best:
            x, y = effect_term(ra), effect_term(rb)
            add("effect", f"effects ({n})", best, (x, y), X.diff)
        if nodes is None:
            ds = order.compare(A, B, X, {q: f.node for q, f in self.rf.items()})
            if ds or not best:
                add("effect", "order of effects", ds)
        if nodes is None:
            ds = [Diff("D", None, None, f"{t} (line {n})") for t, n in alias.compare(self.rf[qual].node, self.af[qual].node, self.aliasing(self.ref), self.aliasing(self.repo), self.filled())]
            if ds:
                add("effect", "objects under more than one name", ds)
        ds = sig_diff(self.rf[qual], self.af[qual])
        if ds:
            add("sig", "signature and defaults", ds)
        return obs

    def modular(self, qual):
        r = self.mod.get(qual)
        if r is None:
            if qual not in self.rf:
                raise LookupError("reference lacks " + qual)
            if qual not in self.af:
                r = None
            elif qual not in self.common:
                f = self.af[qual]
                o = Ob(short(qual) + " signature", UND, f"{f.file}:{f.node.lineno}", "parameters changed")
                o.aspect, o.qual = "sig", qual
                r = [o]
            else:
                r = self.compare(qual, self.common)
            self.mod[qual] = r
        return r

    def changed(self):
        if not hasattr(self, "_changed"):
            ch = set()
            for q in self.rf:
                if q in self.af and same_ast(self.rf[q], self.af[q]) and self.same_env(q):
                    continue
                r = self.modular(q)
                if r is None or any(o.verdict != SAT for o in r):
                    ch.add(q)
            self._changed = ch
        return self._changed

    def same_env(self, q):
        """module-level bindings the function can see are unchanged"""
        m = self.rf[q].module.name
        if not hasattr(self, "_env"):
            self._env = {}
        if m not in self._env:
            a, b = self.ref.modules[m], self.repo.modules.get(m)
            self._env[m] = b is not None and a.imports == b.imports and {k: ast.dump(v) for k, v in a.consts.items()} == {k: ast.dump(v) for k, v in b.consts.items()} and {k: cls_dump(c) for k, c in a.classes.items()} == {k: cls_dump(c) for k, c in b.classes.items()}
        return self._env[m]

    def callers(self, q):
        """functions of the current tree that call q, directly (by name)"""
        if not hasattr(self, "_callers"):
            self._callers = {}
            for f in self.af.values():
                names = set()
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Name):
                        names.add(n.id)
                    elif isinstance(n, ast.Attribute):
                        names.add(n.attr)
                for n in names:
                    self._callers.setdefault(n, set()).add(f.qual)
        return {c for c in self._callers.get(q.rsplit(".", 1)[1], ()) if c != q}

    def judge(self, qual):
        """obligations of qual; in a module written anew only an isolated difference decides"""
        r = self._judge(qual)
        vs = [o for o in r if o.verdict == VIO]
        if vs and self.rewritten(qual):
            why = {w for o in vs for w in re.findall(r"D\[([^\]]*)", o.detail)}
            if len(why) != 1 or UNSURE.search(next(iter(why))) or any(o.verdict == UND for o in r):
                for o in vs:
                    o.verdict, o.detail = UND, "rewritten: " + o.detail
        return r

    def rewritten(self, qual):
        """is more than a few words of the function's module both gone and new?"""
        m = (self.rf.get(qual) or self.af.get(qual)).module.name
        if m not in self._anew:
            old, new = ({q: tokens(f.node) for q, f in fs.items() if f.module.name == m and "<" not in q} for fs in (self.rf, self.af))
            gone = added = 0
            for q in sorted(set(old) | set(new)):
                x, y = old.get(q, []), new.get(q, [])
                if x == y:
                    continue
                for k, i1, i2, j1, j2 in difflib.SequenceMatcher(None, x, y, autojunk=False).get_opcodes():
                    if k != "equal":
                        gone, added = gone + i2 - i1, added + j2 - j1
            self._anew[m] = min(gone, added) > ANEW
        return self._anew[m]

    def _judge(self, qual):
        """obligations of qual with code movement between functions taken into account"""
        r = self.modular(qual)
        if r is None:
            o = Ob(short(qual), UND, "", "function no longer exists")
            o.aspect, o.qual = "ret", qual
            return [o]
        if all(o.verdict == SAT for o in r):
            return r
        stable = qual in STABLE or is_public_dunder(qual)
        if stable or not (self.callers(qual) & self.changed()):
            if any(o.verdict == VIO for o in r):
                # the same function may be right once changed helpers are inlined
                r2 = self.inlined(qual)
                return merge(r, r2)
            return self.focus(qual, self.common - self.changed(), merge(r, self.inlined(qual)))
        # a private function: judged by the entry points that reach it
        return self.via_callers(qual, r)

    def inlined(self, qual):
        ch = self.changed()
        return self.compare(qual, self.common - ch)

    def via_callers(self, qual, r, seen=None):
        seen = seen or set()
        out = []
        todo = [qual]
        entries = set()
        while todo:
            q = todo.pop()
            for c in self.callers(q):
                if c in seen:
                    continue
                seen.add(c)
                if c not in self.rf:
                    todo.append(c)
                elif c in STABLE or c not in self.changed() or is_public_dunder(c):
                    if c in self.common:
                        entries.add(c)
                else:
                    todo.append(c)
                    entries.add(c) if c in self.common else None
        verds = []
        for e in sorted(entries):
            for o in self.inlined(e):
                verds.append(o)
        for o in r:
            vs = [x for x in verds if x.verdict == VIO]
            v = VIO if vs else (SAT if verds and all(x.verdict == SAT for x in verds) else UND)
            if o.verdict == SAT:
                v = SAT
            n = Ob(o.name + " (through its callers)", v, vs[0].where if vs else o.where, vs[0].detail if vs else o.detail)
            n.aspect, n.qual = o.aspect, o.qual
            out.append(n)
        return out


ANEW = 18
UNSURE = re.compile(r"missing write|extra write|depends on|dropped|added|singles out|condition|order|container")


def tokens(n):
    """the words of a function, without its docstring"""
    b = n.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        b = b[1:]
    src = "\n".join([ast.unparse(n.args)] + [ast.unparse(x) for x in b])
    return [t for t in re.findall(r"\w+|[^\w\s]", src) if t not in ",()"]


def quantity(t, depth=0):
    """a part of the input, or its size"""
    if depth > 12:
        return False
    if t.op in ("sym", "const", "ext", "cls", "enum"):
        return True
    if t.op in ("attr", "len", "truth", "isinst"):
        return quantity(t.args[0], depth + 1)
    if t.op == "index":
        return quantity(t.args[0], depth + 1) and quantity(t.args[1], depth + 1)
    if t.op in ("add", "mul", "tuple"):
        return all(quantity(z, depth + 1) for z in t.args[0])
    if t.op in ("lt", "eq", "in"):
        return all(quantity(z, depth + 1) for z in t.args)
    if t.op == "obj":
        return t.args[1].op == "sym"
    return False


def roots_of(t):
    out = set()
    for z in walk(t):
        if z.op == "len":
            out.add(z.args[0])
        elif z.op in ("sym", "attr", "index"):
            out.add(z)
    return out


def check_lost(a, b, X):
    """a check of the input that only one version makes"""
    F = BoolForm(X.cfg)
    na, nb = F.build(a), F.build(b)
    ka, kb = keys_of(na), keys_of(nb)
    if bool(ka - kb) == bool(kb - ka):
        return None
    foreign = [F.terms[k] for k in (ka ^ kb)]
    if not all(quantity(t) for t in foreign):
        return None
    shared = [F.terms[k] for k in ka & kb]
    about = set()
    for t in foreign:
        about |= roots_of(t)
    for t in shared:
        # a test that may follow from the missing one
        if not quantity(t) and about & {z for z in walk(t) if z.op != "sym" or z.args[0] != "self"}:
            return None
    keys = sorted(ka | kb, key=str)
    regs = [F.regions(k) for k in keys]
    n = 1
    for r in regs:
        n *= len(r)
    if not 0 < n <= 40000:
        return None
    for combo in product(*regs):
        env = dict(zip(keys, combo))
        if F.ev(na, env) != F.ev(nb, env):
            return Diff("D", a, b, "input check " + ("dropped" if ka - kb else "added"))
    return None


def loop_raises(g, n):
    return sum(r.action.startswith("raise:" + n + "(") for r in g[1])


def effect_term(recs):
    """the effects as one container of records, for whole-term comparison"""
    es = []
    for r in recs:
        e = (ent((), "effect " + r.action, r.value),)
        for c in reversed(r.ctx):
            e = when(c[1], e) if c[0] == "when" else each(c[1], c[2], e)
        es.extend(e)
    return log(empty("list"), tuple(es))


def leaves(t, phis):
    """inputs the value of t depends on other than through a size"""
    out = set()
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if is_size(x) and x.op in ("len", "attr") and not (x.op == "len" and any(z.op in ("setof", "when") for z in walk(x.args[0]))):
            continue
        if x.op == "attr" and x.args[0].op == "sym":
            out.add(x.args[0].args[0] + "." + x.args[1])
            continue
        if x.op == "sym":
            out.add(x.args[0])
            continue
        if x.op == "phi" and x in phis:
            todo.extend(phis[x])
        todo.extend(kids(x))
    return out


def same_states(X, a, b):
    """decide with loop states taken to correspond: their definitions are part of what is compared"""
    ra = [p for p in X.pa if p not in X.pb]
    rb = [p for p in X.pb if p not in X.pa]
    if not ra or len(ra) != len(rb):
        return None
    ab = lambda ps: {p: mk("phi", "?", p.args[1], "?", 0) for p in ps}
    za, zb = ab(X.pa), ab(X.pb)
    m = {}
    for key in (lambda d, z: tuple(subst(t, z).dig for t in d), lambda d, z: subst(d[1], z).dig):
        ka, kb = {}, {}
        for ps, ds, z, out in ((ra, X.pa, za, ka), (rb, X.pb, zb, kb)):
            for p in ps:
                out.setdefault(key(ds[p], z), []).append(p)
        for k in ka:
            if len(ka[k]) == 1 and len(kb.get(k, ())) == 1:
                m[kb[k][0]] = ka[k][0]
                ra.remove(ka[k][0])
                rb.remove(kb[k][0])
    if ra or rb:
        return None
    for y, x in list(m.items()):
        if x.args[0] is not y.args[0]:
            m[mk("iv", y.args[0], y.args[1])] = mk("iv", x.args[0], x.args[1])
        m[X.pb[y][0]] = X.pa[x][0]
    b2 = subst(b, m)
    pb = {}
    for k, v in X.pb.items():
        pb[m.get(k, k)] = tuple(subst(z, m) for z in v)
    X2 = Cmp(X.cfg, X.pa, pb)
    L = Local(X2)
    gaps = list(L.pairs(a, b2))
    for x in [m[y] for y in m if y.op == "phi" and y in X.pb]:
        gaps += L.pairs(X.pa[x][1], pb[x][1]) + L.pairs(X.pa[x][2], pb[x][2])
    return decide(gaps, a, b2, X2) if gaps else None


def lost_dependence(a, b, X):
    if not interpreted(a) or not interpreted(b) or size_like(a) or size_like(b):
        return None
    la, lb = leaves(a, X.pa), leaves(b, X.pb)
    ca = {x.args[0] for x in walk(a) if x.op == "call" and x.args[0].startswith("valor_lite.")}
    cb = {x.args[0] for x in walk(b) if x.op == "call" and x.args[0].startswith("valor_lite.")}
    if cb - ca:
        return None
    roots = {x.split(".")[0] for x in lb}
    for x in sorted(la - lb):
        if "." in x and x.split(".")[0] in lb:
            continue
        if x in roots:
            continue
        return Diff("D", a, b, f"no longer depends on {x}")
    # columns of a table that is still read
    tables = lambda t: {(z.args[0].op, str(cval(z.args[1]))) for z in walk(t) if z.op == "index" and z.args[1].op == "const" and isinstance(z.args[1].args[0], str) and any(w.op == "call" and w.args[0] == "m.iterate_tables" for w in walk(z.args[0]))}
    ta = tables(a)
    if ta and not X.pa and not X.pb:
        strs = {w.args[0] for w in walk(b) if w.op == "const" and isinstance(w.args[0], str)}
        for _, n in sorted(ta):
            if n not in strs and tables(b):
                return Diff("D", a, b, f"no longer depends on column {n}")
    return None


def repair(X, pair, run):
    """is the difference exactly one replaced construct?"""
    a, b = pair
    if not interpreted(a) or not interpreted(b):
        return None
    cmpm.RECORD = {}
    try:
        X2 = Cmp(X.cfg, X.pa, X.pb)
        ds = X2.diff(a, b) if not is_bool(a) else diff_bool(a, b, X2, 0)
        cands = dict(cmpm.RECORD)
    finally:
        cmpm.RECORD = None
    tried = 0
    for (x, y), d in sorted(cands.items(), key=lambda z: (z[1] is not None and z[1].k == "S", size_of(z[0][1]))):
        if x is a or y is b or x is y or y.op in ("const", "sym") and y.op != x.op:
            continue
        if d is not None and d.k == "S" and not decisive_pair(x, y):
            continue
        if d is None and not (plain_test(x, a, b) and plain_test(y, a, b)):
            continue
        tried += 1
        if tried > 60:
            break
        b2 = subst(b, {y: x})
        if b2 is b:
            continue
        if not run(a, b2):
            return Diff("D", x, y, (d.why if d is not None else "test") + " (the only difference)")
    return None


def decisive_pair(x, y):
    return False


def size_of(t):
    return sum(1 for _ in walk(t))


def merge(r, r2):
    """modular and inlined verdicts of the same obligations"""
    d2 = {o.name: o for o in r2}
    out = []
    for o in r:
        x = d2.get(o.name)
        if o.verdict == SAT or x is None:
            out.append(o)
        elif x.verdict == SAT:
            out.append(x)
        elif o.verdict == UND:
            out.append(x)
        elif x.verdict == UND and o.verdict == VIO:
            out.append(o)
        else:
            out.append(o)
    return out


def is_public_dunder(q):
    return q.rsplit(".", 1)[1].startswith("__")


def params_of(f):
    return f.params()


def same_sig(a, b):
    return set(a.params()) == set(b.params()) and a.is_static == b.is_static and a.is_class == b.is_class and a.is_prop == b.is_prop


def strip_doc(node):
    body = node.body
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        body = body[1:]
    return [ast.dump(s) for s in body], ast.dump(node.args), [ast.dump(d) for d in node.decorator_list]


def same_ast(a, b):
    return strip_doc(a.node) == strip_doc(b.node)


def cls_dump(c):
    return (c.bases, c.decos, {k: ast.dump(v) for k, v in c.attrs.items()}, [(n, ast.dump(d) if d else None, ast.dump(t)) for n, d, t in c.fields], sorted(c.methods))


def defaults(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    out = {}
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        out[p.arg] = d
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            out[p.arg] = d
    return out


def sig_diff(a, b):
    out = []
    da, db = defaults(a), defaults(b)
    for k in sorted(set(da) | set(db)):
        x, y = da.get(k), db.get(k)
        if x is None or y is None:
            out.append(Diff("D" if y is None else "S", k if x is None else ast.unparse(x), "no default" if y is None else ast.unparse(y), f"default of {k}"))
        elif ast.dump(x) != ast.dump(y):
            try:
                same = ast.literal_eval(x) == ast.literal_eval(y)
                out += [] if same else [Diff("D", ast.unparse(x), ast.unparse(y), f"default of {k}")]
            except Exception:
                out.append(Diff("S", ast.unparse(x), ast.unparse(y), f"default of {k}"))
    ka = [d for d in a.decos if d not in ("typing.override", "override")]
    kb = [d for d in b.decos if d not in ("typing.override", "override")]
    if ka != kb:
        out.append(Diff("D" if set(kb) < set(ka) else "S", str(ka), str(kb), "decorators"))
    return out


def _lit(node):
    """value of a constant expression, or its source"""
    if node is None:
        return ("none",)
    try:
        return ("v", eval_const(node))
    except Exception:
        return ("src", ast.dump(node))


def eval_const(n):
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.BinOp):
        a, b = eval_const(n.left), eval_const(n.right)
        if isinstance(n.op, ast.LShift):
            return a << b
        if isinstance(n.op, ast.BitOr):
            return a | b
        if isinstance(n.op, ast.Add):
            return a + b
        if isinstance(n.op, ast.Sub):
            return a - b
        if isinstance(n.op, ast.Mult):
            return a * b
        if isinstance(n.op, ast.Pow):
            return a ** b
        if isinstance(n.op, ast.Div):
            return a / b
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        return -eval_const(n.operand)
    return ast.literal_eval(n)


def enum_members(c):
    out, i = {}, 0
    for k, v in c.attrs.items():
        if k.startswith("_"):
            continue
        if isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] == "auto":
            out[k] = ("auto", i)
        else:
            out[k] = _lit(v)
        i += 1
    return out


def class_diffs(ref, repo, a, b):
    """declared content of a class: enum members, dataclass fields and defaults, bases"""
    ds = []
    if ref.is_enum(a):
        if not repo.is_enum(b):
            return [Diff("D", a.qual, b.qual, "no longer an enumeration")]
        ma, mb = enum_members(a), enum_members(b)
        flag = any(x.split(".")[-1] in ("IntFlag", "Flag") for k in ref.mro(a) for x in k.bases)
        vals = {}
        for k, v in mb.items():
            w = v
            if flag and v[0] == "auto":
                w = ("v", 1 << v[1])
            if flag and w[0] == "v" and isinstance(w[1], int):
                for k2, w2 in vals.items():
                    if w2[0] == "v" and w2[1] & w[1]:
                        ds.append(Diff("D", f"{k2}, {k} exclusive", f"{k2}={w2[1]}, {k}={w[1]}", "flags share a bit"))
                if not 0 < w[1] < 256:
                    ds.append(Diff("D", f"{k} within 8 bits", str(w[1]), "flag does not fit the stored mask"))
            elif w in vals.values():
                ds.append(Diff("D", "distinct values", f"{k} = {w[1:]}", "enumeration members are aliases"))
            vals[k] = w
        for k in ma:
            if k not in mb:
                ds.append(Diff("D", f"{k} = {ma[k][1:]}", "nothing", "enumeration member missing"))
            elif ma[k] != mb[k] and not flag:
                known = ma[k][0] == "v" and mb[k][0] == "v"
                ds.append(Diff("D" if known else "S", f"{k} = {ma[k][1:]}", f"{k} = {mb[k][1:]}", "enumeration value"))
        for k in mb:
            if k not in ma:
                ds.append(Diff("S", "nothing", f"{k} = {mb[k][1:]}", "enumeration member added"))
        return ds
    if a.is_dataclass or a.fields:
        fa = {n: (d, t) for n, d, t in a.fields}
        fb = {n: (d, t) for n, d, t in b.fields}
        if a.is_dataclass and not b.is_dataclass:
            ds.append(Diff("S", "dataclass", "class", "declaration"))
        for k in fa:
            if k not in fb:
                ds.append(Diff("S", k, "nothing", "field missing"))
                continue
            x, y = _lit(fa[k][0]), _lit(fb[k][0])
            if x != y:
                known = all(z[0] in ("v", "none") for z in (x, y))
                ds.append(Diff("D" if known else "S", f"{k} = {x[1:]}", f"{k} = {y[1:]}", "default of a field"))
        if [n for n, _, _ in a.fields] != [n for n, _, _ in b.fields] and set(fa) == set(fb):
            ds.append(Diff("D", str(list(fa)), str(list(fb)), "order of the positional fields"))
    return ds


def class_obs(J, qual):
    a, b = J.ref.cls(qual), J.repo.cls(qual)
    if b is None:
        o = Ob(short(qual), UND, "", "class no longer exists")
    else:
        ds = class_diffs(J.ref, J.repo, a, b)
        o = Ob(short(qual) + " declaration", verdict(ds), f"{b.module.rel}:{b.node.lineno} ({b.qual})", detail(ds))
    o.aspect, o.qual = "class", qual
    return [o]
