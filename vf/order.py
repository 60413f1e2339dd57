"""Order of events: two versions that do the same things, but not in the same order.

Effects are compared as multisets (statements that do not touch each other may
be exchanged).  Here the pairs that do touch each other are looked at: an
operation that changes a stateful object (a cache writer, a file, the model
client's conversation) against another operation on it, and a raised error
against an operation that changes something.  A pair that is reversed is a
violation.
"""
import ast
from .ir import *
from .norm import *
from .equiv import EvRec, exc_name
from .cmp import Diff, interpreted

MUT = {"write", "write_batch", "write_table", "write_rows", "flush", "close", "_close_writer", "delete", "unlink", "rmtree", "rmdir",
       "mkdir", "dump", "add_data", "_add_data", "finalize", "create", "sort", "_merge", "_rank", "write_text", "truncate",
       "from_valor_dict", "_create_rocauc_intermediate", "add_bounding_boxes", "add_polygons", "add_bitmasks", "ParquetWriter", "sort_by", "_get_or_create_writer", "_generate_next_filename"}
READ = {"count_rows", "count_tables", "to_reader", "iterate_tables", "iterate_arrays", "iterate_tables_with_arrays", "iterate_fragment_batch_iterators",
        "iterate_ordered_fragments", "get_files", "get_dataset_files", "exists", "is_dir", "is_file", "load", "glob", "listdir", "isfile", "complete", "num_rows",
        "iterdir", "dataset", "ParquetFile"}
FS = {"unlink", "rmtree", "rmdir", "mkdir", "exists", "is_dir", "is_file", "delete", "create", "load", "glob", "listdir", "isfile", "dump", "open", "iterdir"}
PURE_RECV = ("np.", "pc.", "pa.")


def last(n):
    return n.rsplit(".", 1)[-1]


def subject(t):
    """what the operation is applied to"""
    if t.op == "obj" and len(t.args) > 1 and isinstance(t.args[1], T):
        return subject(t.args[1])
    if t.op == "log":
        return subject(log_parts(t)[0])
    return t


def key(e):
    """(operation, subject) of an event that matters for order, else None"""
    if e.kind == "raise":
        return ("raise", None)
    if e.kind != "call" or not isinstance(e.term, T) or e.term.op != "call":
        return None
    n = e.term.args[0]
    if n.startswith(PURE_RECV):
        return None
    k = last(n)
    if n.startswith("decorated:"):
        return None
    if k not in MUT and k not in READ:
        return None
    kw = dict(e.term.args[2])
    a = e.term.args[1]
    s = a[0] if a else kw.get("self", kw.get("sink", kw.get("path")))
    return (k, subject(s) if s is not None else None)


def record(e):
    ctx = tuple(c for c in e.ctx if c[0] in ("when", "each"))
    if e.kind == "raise":
        n = exc_name(e.term) if isinstance(e.term, T) else "?"
        return EvRec(ctx, (), "raise:" + n, NONE)
    return EvRec(ctx, (), "call:" + e.term.args[0], e.term)


def writes_of(node):
    """attributes of self that a method changes"""
    out = set()
    for c in ast.walk(node):
        if not isinstance(c, ast.Call):
            continue
        n = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
        if n not in MUT:
            continue
        objs = [k.value for k in c.keywords if k.arg == "sink"]
        if isinstance(c.func, ast.Attribute):
            objs.append(c.func.value)
        for o in objs:
            if isinstance(o, ast.Attribute) and isinstance(o.value, ast.Name) and o.value.id == "self":
                out.add(o.attr)
    return out


def part_changed(e, s, other, nodes):
    """a method of an object that changes the part of it the other operation uses"""
    if other is None or other.op != "attr" or s is None or other.args[0] is not s:
        return False
    node = nodes.get(e.term.args[0])
    return node is not None and other.args[1] in writes_of(node)


def conflict(x, y, ex, ey, nodes):
    (kx, sx), (ky, sy) = x, y
    if kx == "raise" and ky == "raise":
        return protects(ex, ey)
    if kx == "raise" or ky == "raise":
        k = ky if kx == "raise" else kx
        s = sy if kx == "raise" else sx
        return k in MUT and k not in ("create", "sort_by", "sort") and outer(s)
    if kx not in MUT and ky not in MUT:
        return False
    if kx == "sort_by" and not stateful(sx) or ky == "sort_by" and not stateful(sy):
        return False
    if sx is not None and sx is sy:
        return True
    if kx in MUT and part_changed(ex, sx, sy, nodes) or ky in MUT and part_changed(ey, sy, sx, nodes):
        return True
    return kx in FS and ky in FS and sx is not None and sy is not None and related(sx, sy)


def protects(ex, ey):
    """the first error tests what the second one takes for granted"""
    cx = [c[1] for c in ex.ctx if c[0] == "when"]
    tested = set()
    for c in cx:
        for z in (c.args[0] if c.op in ("and", "or") else (c,)):
            n = z.op == "not"
            z = z.args[0] if n else z
            if z.op == "isinst" and n:
                tested.add(z.args[0])
            elif z.op == "in" and n:
                tested.add(mk("index", z.args[1], z.args[0]))
            elif z.op == "eq" and NONE in z.args and not n:
                tested.add(z.args[0] if z.args[1] is NONE else z.args[1])
    tested = {z for z in tested if interpreted(z)}
    if not tested:
        return False
    for c in ey.ctx:
        if c[0] not in ("when", "each"):
            continue
        for z in walk(c[1]):
            if z in tested and z.op == "index":
                return True
            if z.op in ("index", "attr", "len") and z.args[0] in tested:
                return True
            if z.op == "call" and z.args[0] == "getattr" and z.args[1][0] in tested:
                return True
    return False


def outer(s):
    """something the caller can see"""
    if s is None:
        return False
    while s.op in ("attr", "index"):
        s = s.args[0]
    return s.op == "sym"


def stateful(s):
    return s is not None and (s.op == "sym" or s.op == "attr" or s.op == "call" and last(s.args[0]) in ("create", "in_memory", "persistent"))


def related(a, b):
    """one path is part of the other"""
    return any(z is a for z in walk(b)) or any(z is b for z in walk(a))


def pick(S):
    out = []
    for e in S.events:
        k = key(e)
        if k is not None:
            out.append((e, k, record(e)))
    return out


def where_excluded(x, y):
    """can both happen in one run?"""
    loops = []
    for c, d in zip([c for c in x.ctx if c[0] == "each"], [c for c in y.ctx if c[0] == "each"]):
        if c != d:
            break
        loops.append(c)

    def tests(e):
        out, k = set(), 0
        for c in e.ctx:
            if c[0] == "each":
                # alternatives of one turn of a loop both are in
                if k == len(loops):
                    break
                k += 1
            if c[0] == "when":
                out |= set(c[1].args[0]) if c[1].op == "and" else {c[1]}
                out.add(c[1])
        return out
    tx, ty = tests(x), tests(y)
    if any(Not(c) in ty for c in tx):
        return True
    return any(And(c, d) is FALSE for c in tx for d in ty)


def compare(A, B, X, nodes={}):
    """differences of order; None when the events of the two sides do not correspond"""
    ea, eb = pick(A), pick(B)
    if len(ea) < 2 or len(eb) < 2:
        return []
    pos, used = [], set()
    for e, k, r in ea:
        hit = None
        for j, (f, kf, q) in enumerate(eb):
            if j in used or q.action != r.action:
                continue
            if not X.rec_diff(r, q, 0):
                hit = j
                break
        if hit is not None:
            used.add(hit)
        pos.append(hit)
    for i in range(len(ea)):
        if pos[i] is None:
            continue
        for j in range(i + 1, len(ea)):
            if pos[j] is None or pos[j] > pos[i]:
                continue
            if not conflict(ea[i][1], ea[j][1], ea[i][0], ea[j][0], nodes) or where_excluded(ea[i][0], ea[j][0]):
                continue
            a, b = ea[i], ea[j]
            if a[1][0] != "raise" and a[2].action == b[2].action and a[2].value is b[2].value:
                continue
            return [Diff("D", label(a), label(b), "order reversed: the first came before the second")]
    return []


def label(x):
    return x[0].term if isinstance(x[0].term, T) else mk("const", x[2].action)
