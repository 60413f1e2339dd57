"""Dedicated rules: each inspects the current tree and returns (obligations, sites).

A rule reports a violation only for a construct it fully understands; a
construct it does not recognise is left undecided.
"""
import ast
from .ir import *
from .norm import *
from . import norm
from .front import Repo, Func, Class, walk_own
from .interp import analyze
from .equiv import Ob, SAT, VIO, UND, short
from .cmp import NARROW, dt_class

TASKS = ("classification", "object_detection", "semantic_segmentation")
SCANS = ("m.iterate_tables", "m.iterate_arrays", "m.iterate_tables_with_arrays", "m.iterate_fragment_batch_iterators")


def summary(J, f, prims=()):
    c = getattr(J, "_sum", None)
    if c is None:
        c = J._sum = {}
    k = (f.qual, tuple(sorted(prims)))
    if k not in c:
        norm.KINDS.clear()
        S = analyze(J.repo, f, cls=f.cls, prims=prims)
        c[k] = S, dict(norm.KINDS)
    norm.KINDS.clear()
    norm.KINDS.update(c[k][1])
    return c[k][0]


def methods(J, cls):
    c = J.repo.cls("valor_lite." + cls)
    return list(c.methods.values()) if c is not None else []


def where(f, node=None):
    return f"{f.file}:{getattr(node or f.node, 'lineno', 0)} ({f.qual})"


def own_calls(f):
    return [n for n in ast.walk(f.node) if isinstance(n, ast.Call)]


def call_name(c):
    if isinstance(c.func, ast.Attribute):
        return c.func.attr
    if isinstance(c.func, ast.Name):
        return c.func.id
    return ""


# ------------------------------------------------------------------ datum filter
def filter_reaches_scans(J):
    """every scan performed for a request that takes a datum filter is given that filter"""
    obs, n = [], 0
    for t in TASKS:
        for f in methods(J, f"{t}.evaluator.Evaluator"):
            if "datums" not in f.params() or f.name == "filter":
                continue  # filter() copies the selected rows; scans of the copy need no filter
            S = summary(J, f)
            bad, k, und = [], 0, []
            for e in S.events:
                if e.kind != "call" or e.term.op != "call" or e.term.args[0] not in SCANS:
                    continue
                k += 1
                kw = dict(e.term.args[2])
                flt = kw.get("filter")
                if flt is None and "**" in str(kw):
                    und.append(e)
                    continue
                if flt is None and len(e.term.args[1]) > 2:
                    und.append(e)
                    continue
                if flt is None or not any(x.op == "sym" and x.args[0] == "datums" for x in walk(flt)):
                    bad.append((e, flt))
            n += k
            if k == 0:
                continue
            name = f"{short(f.qual)} passes the datum filter to its {k} scans"
            if bad:
                e, flt = bad[0]
                obs.append(Ob(name, VIO, e.where(), f"scan {show(e.term, 3)[:200]} of a request with a datum filter is {'not filtered' if flt is None else 'filtered by ' + show(flt, 4)}"))
            else:
                obs.append(Ob(name, UND if und else SAT, where(f)))
    return obs, n


# ------------------------------------------------------------------ effects
WRITE_METHODS = {"m.write", "m.write_rows", "m.write_columns", "m.write_batch", "m.write_table", "m.flush", "m.unlink", "m.rmdir", "m.mkdir",
                 "m.write_text", "m.write_bytes", "m.touch", "m.rename", "m.truncate", "m.close"}
WRITE_FUNCS = {"pq.write_table", "pq.ParquetWriter", "shutil.rmtree", "os.remove", "os.unlink", "os.rmdir", "os.rename", "os.replace", "os.makedirs", "os.mkdir", "json.dump", "pickle.dump", "np.save"}


def writes(e):
    t = e.term
    if e.kind != "call" or t.op != "call":
        return False
    n = t.args[0]
    if n in WRITE_METHODS or n in WRITE_FUNCS:
        return True
    if n == "open":
        mode = t.args[1][1] if len(t.args[1]) > 1 else dict(t.args[2]).get("mode")
        return mode is not None and mode.op == "const" and any(c in str(mode.args[0]) for c in "wax+")
    if e.extra == "stmt" and n == "m.sort_by":
        return True
    return False


def evaluation_read_only(J):
    """requests on an evaluator reach no operation that writes, and set no attribute of the evaluator"""
    obs, n = [], 0
    for t in TASKS:
        for f in methods(J, f"{t}.evaluator.Evaluator"):
            if f.name in ("__init__", "filter", "load") or f.is_class or f.is_static:
                continue
            S = summary(J, f)
            n += 1
            bad = [e for e in S.events if writes(e)]
            stores = []
            for g in [f]:
                for x in ast.walk(g.node):
                    tg = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
                    for y in tg:
                        b = y
                        while isinstance(b, (ast.Attribute, ast.Subscript)):
                            if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == "self":
                                stores.append(y)
                            b = b.value
            name = f"{short(f.qual)} is read-only"
            if bad:
                obs.append(Ob(name, VIO, bad[0].where(), f"reaches {show(bad[0].term, 3)[:200]}"))
            elif S.final.get("self") is not S.init.get("self") and "self" in S.init:
                obs.append(Ob(name, VIO if stores else UND, where(f, stores[0] if stores else None), "changes the state of the evaluator: " + show(S.final["self"], 4)[:200]))
            else:
                obs.append(Ob(name, SAT, where(f)))
    return obs, n


DESTRUCTIVE = {"unlink", "rmdir", "rmtree", "remove", "removedirs", "truncate", "rename", "replace"}


def destructive_calls(f):
    out = []
    for c in own_calls(f):
        n = call_name(c)
        if n in ("unlink", "rmdir", "rmtree", "removedirs", "truncate"):
            out.append(c)
        elif n in ("remove", "rename", "replace") and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in ("os", "shutil"):
            out.append(c)
    return out


def destructive_confined(J):
    """operations that remove files are reached only from the explicit delete of a cache"""
    obs, n = [], 0
    allowed = {"valor_lite.cache.persistent.FileCacheWriter.delete", "valor_lite.cache.persistent.FileCacheWriter.create"}
    holders = {q: destructive_calls(f) for q, f in J.af.items() if destructive_calls(f)}
    for q, cs in sorted(holders.items()):
        n += len(cs)
        f = J.af[q]
        seen, todo, bad = {q}, [q], None
        while todo and bad is None:
            x = todo.pop()
            if x in allowed:
                continue
            cl = resolved_callers(J, x)
            if not x.rsplit(".", 1)[1].startswith("_") or not cl:
                if x in J.rf or not cl:
                    bad = x
                    break
            for y in cl:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        name = f"{short(q)} removes files only on behalf of the explicit delete"
        if bad is None:
            obs.append(Ob(name, SAT, where(f, cs[0])))
        else:
            obs.append(Ob(name, VIO, where(f, cs[0]), f"{ast.unparse(cs[0])} is reachable from {short(bad)}"))
    # what is removed belongs to the cache
    for q in sorted(holders):
        f = J.af[q]
        for e in summary(J, f).events:
            t = e.term
            if t is None or t.op != "call" or t.args[0] not in ("m.unlink", "os.remove", "os.unlink", "m.rmdir", "os.rmdir", "shutil.rmtree") or not t.args[1]:
                continue
            x = t.args[1][0]
            far = [z for z in walk(x) if z.op == "call" and (z.args[0] in ("m.rglob", "os.walk") or z.args[0] in ("m.glob", "glob.glob", "glob.iglob") and any(v.op == "const" and isinstance(v.args[0], str) and "**" in v.args[0] for v in walk(z)))]
            wide = [z for z in walk(x) if z.op == "call" and z.args[0].split(".")[-1] in ("iterdir", "listdir", "scandir", "get_files")]
            own = any(v.op == "const" and isinstance(v.args[0], str) and "parquet" in v.args[0] for c in e.conds() for v in walk(c))
            name = f"{short(q)} removes only files of the cache"
            n += 1
            if far or wide and not own:
                obs.append(Ob(name, VIO, e.where(), f"removes {show(x, 4)[:200]}"))
            else:
                obs.append(Ob(name, SAT, e.where()))
    # nobody inside the package asks for an existing cache to be deleted
    k = 0
    for q, f in J.af.items():
        for c in own_calls(f):
            for kw in c.keywords:
                if kw.arg == "delete_if_exists":
                    k += 1
                    if isinstance(kw.value, ast.Constant) and kw.value.value:
                        obs.append(Ob(f"{short(q)} creates caches without deleting existing ones", VIO, where(f, c), ast.unparse(c)[:200]))
            if call_name(c) == "delete" and q not in allowed and isinstance(c.func, ast.Attribute):
                obs.append(Ob(f"{short(q)} does not delete caches", VIO, where(f, c), ast.unparse(c)[:200]))
    return obs, n


def resolved_callers(J, q):
    """functions that mention q's name as a call target (over-approximation by name)"""
    name = q.rsplit(".", 1)[1]
    out = set()
    for c, f in J.af.items():
        if c == q:
            continue
        if any(call_name(x) == name for x in own_calls(f)):
            out.add(c)
    return out


# ------------------------------------------------------------------ counters
def wide_counters(J):
    """arrays that accumulate counts have 64-bit elements"""
    obs, n = [], 0
    for q, f in sorted(J.af.items()):
        m = f.module.name
        if not any(m == f"valor_lite.{t}.{x}" for t in TASKS for x in ("computation", "evaluator", "shared", "loader")):
            continue
        narrow, wide = {}, set()
        for s in ast.walk(f.node):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Call):
                c = s.value
                if call_name(c) in ("zeros", "zeros_like", "full", "empty", "ones", "full_like", "empty_like", "ones_like"):
                    d = next((k.value for k in c.keywords if k.arg == "dtype"), None)
                    if d is None:
                        continue
                    dn = ast.unparse(d)
                    n += 1
                    if dn in NARROW or dn.strip("'\"") in {x[3:] for x in NARROW}:
                        narrow[s.targets[0].id] = s
        for s in ast.walk(f.node):
            tgt = None
            if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add):
                tgt = s.target
            elif isinstance(s, ast.Call) and call_name(s) == "at" and ast.unparse(s.func).endswith("add.at") and s.args:
                tgt = s.args[0]
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and any(call_name(c) in ("bincount", "sum", "arange", "cumsum", "count_nonzero") for c in ast.walk(s.value) if isinstance(c, ast.Call)):
                tgt = s.targets[0]
            while isinstance(tgt, (ast.Subscript, ast.Attribute)):
                tgt = tgt.value
            if isinstance(tgt, ast.Name) and tgt.id in narrow:
                obs.append(Ob(f"{short(q)} accumulates {tgt.id} in 64 bits", VIO, where(f, narrow[tgt.id]), ast.unparse(narrow[tgt.id])))
        obs.append(Ob(f"{short(q)} accumulators", SAT, where(f)))
    return obs, n


# ------------------------------------------------------------------ divisions
TOLERANT = ("nan_to_num", "isfinite", "isnan", "errstate", "isinf", "nanmean", "ZeroDivisionError")


def unguarded(S, f):
    """(term, event) of divisions by a quantity that no guard mentions"""
    out, n = [], 0
    bodies = [("result", S.ret, ())] + [(k, v, ()) for k, v in S.final.items() if v is not S.init.get(k)]
    bodies += [("call", e.term, e.ctx) for e in S.events if isinstance(e.term, T) and e.kind in ("call", "yield", "setattr", "setitem")]
    seen = set()
    for nm, t, ctx in bodies:
        conds = [c[1] for c in ctx if c[0] in ("when", "ok")]
        stack = [(t, tuple(conds))]
        while stack:
            x, cs = stack.pop()
            if (x, cs) in seen:
                continue
            seen.add((x, cs))
            if x.op == "div":
                n += 1
                d = x.args[1]
                if not positive(d) and not guarded(d, cs):
                    out.append((x, nm))
            if x.op == "call" and x.args[0] == "safediv":
                n += 1
            if x.op == "ite":
                stack.append((x.args[0], cs))
                stack.append((x.args[1], cs + (x.args[0],)))
                stack.append((x.args[2], cs + (x.args[0],)))
                continue
            if x.op == "when":
                for y in x.args[1]:
                    stack.append((y, cs + (x.args[0],)))
                stack.append((x.args[0], cs))
                continue
            for y in kids(x):
                stack.append((y, cs))
    return out, n


def positive(d):
    if is_num(d):
        return cval(d) != 0
    if d.op == "call" and d.args[0] in ("np.maximum", "max") and any(is_num(y) and cval(y) > 0 for y in d.args[1]):
        return True
    if d.op == "call" and d.args[0] == "np.where":
        return True
    if d.op == "add" and any(is_num(y) and cval(y) > 0 for y in d.args[0]):
        return True
    if d.op == "mul":
        return all(positive(y) for y in d.args[0])
    if d.op == "index" and is_bool(d.args[1]) and any(y is d.args[0] or y in set(atoms_of(d.args[0])) for y in walk(d.args[1])):
        # only the places where it was tested
        return True
    if d.op in ("opaque", "phi", "sym") or d.op == "const":
        return d.op != "sym"
    return False


def guarded(d, cs):
    subs = set(atoms_of(d))
    for c in cs:
        if any(x in subs for x in walk(c)):
            return True
        # the guard may test emptiness of what the denominator counts
        ls = {x for x in walk(c) if x.op in ("sym", "attr", "index", "log", "call")}
        if any(y in ls for y in subs):
            return True
    return False


def atoms_of(d):
    out = [d]
    if d.op in ("add", "mul"):
        for x in d.args[0]:
            out += atoms_of(x)
    if d.op == "len":
        out += atoms_of(d.args[0])
    if d.op == "call" and d.args[0] in ("float", "int", "m.astype", "m.sum", "np.float64", "len") and d.args[1]:
        out += atoms_of(d.args[1][0])
    if d.op == "sum":
        out.append(d.args[0])
    return out


def total(t):
    return t.op == "sum" or t.op == "call" and t.args[0] in ("m.sum", "np.sum", "sum")


def _divisions(J, mods, skip=()):
    obs, n = [], 0
    for q, f in sorted(J.af.items()):
        if f.module.name not in mods or short(q) in skip:
            continue
        if q not in J.rf and J.callers(q):
            continue  # a helper: seen where it is called, with the guards of the caller
        S = summary(J, f, prims=J.common - {q})
        bad, k = unguarded(S, f)
        n += k
        if not k:
            continue
        base = set()
        if q in J.rf:
            norm.KINDS.clear()
            R = analyze(J.ref, J.rf[q], cls=J.rf[q].cls, prims=J.common - {q})
            base = {show(x, 40) for x, _ in unguarded(R, J.rf[q])[0]}
        src = ast.unparse(f.node)
        bad = [(x, w) for x, w in bad if show(x, 40) not in base]
        if q in J.rf and "mean(" in ast.unparse(J.rf[q].node):
            # a mean taken by hand
            bad = [(x, w) for x, w in bad if not (x.op == "div" and total(x.args[0]) and (x.args[1].op in ("len", "index", "attr")))]
        name = f"{short(q)} guards its divisions"
        if not bad:
            obs.append(Ob(name, SAT, where(f)))
        elif any(w in src for w in TOLERANT) or base:
            obs.append(Ob(name, UND, where(f), show(bad[0][0], 6)[:200]))
        else:
            obs.append(Ob(name, VIO, where(f), f"division {show(bad[0][0], 6)[:300]} is not guarded against a zero denominator"))
    return obs, n


def divisions_guarded(J):
    return _divisions(J, {f"valor_lite.{t}.computation" for t in TASKS})


def text_divisions_guarded(J):
    return _divisions(J, {"valor_lite.text_generation.computation"})


# ------------------------------------------------------------------ native values
NATIVE = {"float", "int", "str", "bool", "len", "repr", "m.tolist", "m.item", "m.as_py", "m.to_pylist", "m.join", "m.keys", "m.lower", "m.strip", "isinstance", "json.loads", "m.format"}
THROUGH = {"list", "dict", "tuple", "sorted", "set", "sum", "max", "min", "round", "abs", "m.values", "m.items", "m.copy", "m.get"}


def numpy_leaf(t, path=(), seen=None, depth=0):
    """a numpy value inside the plain containers of t: (subterm, path), or None"""
    seen = set() if seen is None else seen
    if t in seen or depth > 60:
        return None
    seen.add(t)
    rec = lambda x, p=path: numpy_leaf(x, p, seen, depth + 1)
    first = lambda xs: next((r for r in map(rec, xs) if r), None)
    o = t.op
    if o == "call":
        f = t.args[0]
        if f in NATIVE:
            return None
        if f in THROUGH:
            return first(t.args[1])
        if f in ("m.sum", "m.mean", "m.max", "m.min", "m.astype", "m.flatten", "m.copy", "m.reshape", "m.cumsum") and t.args[1]:
            return (t, path) if kind(t.args[1][0]) == "array" else None
        if f.startswith("np.") or f in ("safediv",):
            return t, path
        return None
    if o == "index":
        b, k = t.args
        while b.op == "index":
            b = b.args[0]
        if kind(b) == "array":
            return t, path
        return None
    if o == "log":
        if kind(t) == "array":
            return t, path
        return first([e for e in t.args[1]]) or rec(t.args[0])
    if o == "ent":
        return numpy_leaf(t.args[2], path + t.args[0], seen, depth + 1) if isinstance(t.args[2], T) else None
    if o == "each":
        return first(t.args[2])
    if o == "when":
        return first(t.args[1])
    if o in ("ite",):
        return first(t.args[1:])
    if o in ("tuple", "add", "mul"):
        return first(t.args[0])
    if o == "div":
        return first(t.args[:2])
    if o == "obj":
        return first([v for _, v in t.args[2]])
    if o in ("lt", "eq", "not", "and", "or"):
        return (t, path) if kind(t) == "array" else None
    if o == "sym":
        return (t, path) if kind(t) == "array" else None
    return None


def native_metric_values(J):
    """what is put into a metric has been converted to plain Python values"""
    obs, n = [], 0
    for q, f in sorted(J.af.items()):
        if not any(f.module.name == f"valor_lite.{t}.{x}" for t in TASKS for x in ("utilities", "evaluator")):
            continue
        if q not in J.rf and J.callers(q):
            continue
        if "Metric" not in ast.unparse(f.node):
            continue
        S = summary(J, f, prims=J.common - {q})
        for e in S.events:
            if e.kind != "call" or not isinstance(e.term, T) or e.term.op not in ("call", "obj"):
                continue
            c = e.term.args[0]
            if ".metric.Metric" not in c:
                continue
            if e.term.op == "obj":
                kws = e.term.args[2]
            else:
                kws = list(e.term.args[2]) + [(str(i), v) for i, v in enumerate(e.term.args[1])]
            for k, v in kws:
                n += 1
                name = f"{short(q)} {c.rsplit('.', 2)[-1]}({k}) is a plain value"
                r = numpy_leaf(v)
                w = f"{e.file}:{e.line} ({q})"
                if r:
                    at = "".join(f"[{show(p, 3)}]" for p in r[1])
                    obs.append(Ob(name, VIO, w, f"{k}{at} = {show(r[0], 6)[:300]} is a numpy value"))
                else:
                    obs.append(Ob(name, SAT, w))
    return obs, n


# ------------------------------------------------------------------ prompts
def text_of(node):
    return "".join(x.value for x in ast.walk(node) if isinstance(x, ast.Constant) and isinstance(x.value, str))


def prompt_keys_agree(J):
    """the entry a response is validated for and read from is the one its prompt asks for"""
    obs, n = [], 0
    gm = J.repo.modules.get("valor_lite.text_generation.llm.generation")
    im = J.repo.modules.get("valor_lite.text_generation.llm.instructions")
    if gm is None or im is None:
        return obs, 0
    for name, f in sorted(gm.funcs.items()):
        instr = [c for c in own_calls(f) if call_name(c) in im.funcs]
        gens = [c for c in own_calls(f) if any(k.arg == "keys" for k in c.keywords)]
        if not instr or not gens:
            continue
        keys = next(k.value for k in gens[0].keywords if k.arg == "keys")
        if not isinstance(keys, (ast.Set, ast.List, ast.Tuple)) or not all(isinstance(x, ast.Constant) for x in keys.elts):
            obs.append(Ob(f"{short(f.qual)} keys", UND, where(f), "keys are not literal"))
            continue
        ks = {x.value for x in keys.elts}
        g = im.funcs[call_name(instr[0])]
        body = g.node
        txt = "".join(text_of(s) for s in body.body[1:] if True) if ast.get_docstring(body) else text_of(body)
        # text kept in module constants
        for x in ast.walk(body):
            if isinstance(x, ast.Name) and x.id in im.consts:
                txt += text_of(im.consts[x.id])
            if isinstance(x, ast.Call) and call_name(x) in im.funcs:
                txt += text_of(im.funcs[call_name(x)].node)
        for k in sorted(ks):
            n += 1
            nm = f"{short(g.qual)} asks for '{k}'"
            if f"'{k}'" in txt or f'"{k}"' in txt:
                obs.append(Ob(nm, SAT, where(g)))
            else:
                obs.append(Ob(nm, VIO, where(g), f"the response is validated for {k!r} in {short(f.qual)} but the prompt never mentions it"))
        read = {x.slice.value for x in ast.walk(f.node) if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str)}
        n += 1
        nm = f"{short(f.qual)} reads only validated entries"
        if read <= ks:
            obs.append(Ob(nm, SAT, where(f)))
        else:
            obs.append(Ob(nm, VIO, where(f), f"reads {sorted(read - ks)} but only {sorted(ks)} were validated"))
        # the vocabulary asked for is the vocabulary accepted
        av = next((k.value for k in gens[0].keywords if k.arg == "allowed_values"), None)
        if isinstance(av, (ast.Set, ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) for x in av.elts):
            for v in sorted(x.value for x in av.elts):
                n += 1
                nm = f"{short(g.qual)} offers the verdict '{v}'"
                ok = f"'{v}'" in txt or f'"{v}"' in txt
                obs.append(Ob(nm, SAT if ok else VIO, where(g), "" if ok else f"verdict {v!r} is accepted in {short(f.qual)} but never offered"))
    return obs, n


# ------------------------------------------------------------------ thresholds
def threshold_loops_independent(J):
    """no mask is narrowed or widened from one threshold to the next"""
    obs, n = [], 0
    names = [f"{t}.computation.{x}" for t in ("classification", "object_detection") for x in ("compute_counts", "compute_pair_classifications", "compute_confusion_matrix")]
    for nm in names:
        f = J.repo.func("valor_lite." + nm)
        if f is None:
            continue
        S = summary(J, f, prims=J.common - {f.qual} - J.changed())
        n += 1
        bad = None
        seen = set()
        for t in [S.ret] + [v for k, v in S.final.items() if v is not S.init.get(k)]:
            for x in walk(t):
                if x.op == "phi" and x not in seen:
                    seen.add(x)
                    if not threshold_dom(x.args[0]):
                        continue
                    d = S.phidef.get(x)
                    if d is None:
                        continue
                    ph, init, step = d
                    if carried(step, ph, mk("iv", x.args[0], x.args[1])):
                        bad = (x, d)
        name = f"{nm} treats each threshold on its own"
        if bad:
            obs.append(Ob(name, VIO, where(f), f"a value is carried from one threshold to the next: starts as {show(bad[1][1], 4)[:160]}, becomes {show(bad[1][2], 5)[:240]}"))
        else:
            obs.append(Ob(name, SAT, where(f)))
    return obs, n


def threshold_dom(d):
    return any(x.op == "sym" and "threshold" in str(x.args[0]) for x in walk(d))


def carried(step, ph, iv):
    """step combines the previous value with something that depends on this threshold"""
    if step.op in ("and", "or", "mul") and any(x is ph for x in step.args[0]):
        return any(iv in set(walk(x)) for x in step.args[0] if x is not ph)
    if step.op == "index" and step.args[0] is ph:
        return iv in set(walk(step.args[1])) and is_bool(step.args[1])
    return False


# ------------------------------------------------------------------ text generation
def retry_decorated(J):
    """every metric that asks the model runs under the retry wrapper"""
    obs, n = [], 0
    llm = set()
    cm = J.repo.modules.get("valor_lite.text_generation.computation")
    for name, f in (cm.funcs if cm else {}).items():
        if "client" in f.params():
            llm.add(name)
    for f in methods(J, "text_generation.manager.Evaluator"):
        uses = [c for c in own_calls(f) if call_name(c) in llm]
        if not uses:
            continue
        n += 1
        ok = any(d.split(".")[-1] == "llm_guided_metric" for d in f.decos)
        name = f"{short(f.qual)} retries and reports invalid responses"
        if ok:
            obs.append(Ob(name, SAT, where(f)))
        elif f.decos:
            obs.append(Ob(name, UND, where(f), f"decorators {f.decos}"))
        else:
            public = not f.name.startswith("_")
            obs.append(Ob(name, VIO if public else UND, where(f), f"{ast.unparse(uses[0].func)} is called outside the retry wrapper"))
    return obs, n


# ------------------------------------------------------------------ rows and schemas
LOADERS = {
    "classification": ("valor_lite.classification.loader", "valor_lite.classification.shared.generate_schema"),
    "object_detection": ("valor_lite.object_detection.loader", "valor_lite.object_detection.shared.generate_detailed_schema"),
    "semantic_segmentation": ("valor_lite.semantic_segmentation.loader", "valor_lite.semantic_segmentation.shared.generate_schema"),
}


def rows_match_schema(J):
    """the rows a loader writes have exactly the columns of the schema they are written under"""
    obs, n = [], 0
    for t, (mod, schema) in LOADERS.items():
        m = J.repo.modules.get(mod)
        s = J.repo.func(schema)
        if m is None or s is None:
            continue
        cols = {x.elts[0].value for x in ast.walk(s.node) if isinstance(x, ast.Tuple) and len(x.elts) == 2 and isinstance(x.elts[0], ast.Constant) and isinstance(x.elts[0].value, str)}
        if not cols:
            continue
        for c in m.classes.values():
            for f in c.methods.values():
                named = {id(a.value) for a in ast.walk(f.node) if isinstance(a, (ast.Assign, ast.AnnAssign)) and a.value is not None}
                for d in ast.walk(f.node):
                    if not isinstance(d, ast.Dict):
                        continue
                    ks = {k.value for k in d.keys if isinstance(k, ast.Constant)}
                    if len(ks & cols) < 3:
                        continue
                    n += 1
                    name = f"{short(f.qual)} row {len(ks)} columns"
                    if ks == cols:
                        obs.append(Ob(name, SAT, where(f, d)))
                    elif len(cols - ks) and any(isinstance(v, ast.Name) or k is None for k, v in zip(d.keys, d.values) if k is None):
                        # spread entries may supply the rest only if they are metadata
                        obs.append(Ob(name, VIO if id(d) not in named and cols - ks and (ks - cols or all(isinstance(v, ast.Name) and "metadata" in v.id for k, v in zip(d.keys, d.values) if k is None)) else UND, where(f, d), f"columns without a value: {sorted(cols - ks)}, entries without a column: {sorted(ks - cols)}"))
                    else:
                        obs.append(Ob(name, VIO if ks - cols and id(d) not in named else UND, where(f, d), f"columns without a value: {sorted(cols - ks)}, entries without a column: {sorted(ks - cols)}"))
    return obs, n
