"""C14: all parts agree on who worker k of node n is."""
from .common import *

SKIP_MODS = ("litdata.debugger",)


def check(P, R):
    R.rule("formula", "wherever a process or node rank is multiplied to number workers, it is multiplied by the number of workers per process (or node) and the worker number is added")
    R.rule("number", "each part numbers its worker as rank * workers + worker, with the rank, the count and the number it detected")
    R.rule("share", "a worker takes from the assignment the entry of its own global number, an assignment made for the same number of workers; a process or node takes the entries of all its workers")
    R.rule("detect", "the detected environment takes each field from its own source: world size, global rank, number of nodes, number of workers, worker number")
    R.rule("env-names", "the variables a process announces its number under are the ones the others read")
    R.rule("detected-late", "the worker number is not remembered by an object before it is inside the worker")
    R.rule("detected-early", "the process rank is taken when the object is made, in the process that knows it")
    R.rule("grouping", "workers are grouped by process and by node by whole divisions by the numbers of workers and of processes per node")
    R.part(P, formulas, numbers, shares, detection, env_names, late, grouping)


# ------------------------------------------------------------------ recognising quantities
def is_rank(x):
    """number of this process among all processes, or of this node among all nodes"""
    x = peel(strip(x))
    if x.k == "attr" and x.a[1] in ("global_rank", "_global_rank", "node_rank"):
        return True
    if x.k == "param" and x.a[0] in ("global_rank", "node_rank"):
        return True
    if x.k == "call":
        if fname(x).split(".")[-1] in ("_get_node_rank", "get_node_rank", "get_rank"):
            return True
        if fname(x) in ("os.getenv", "os.environ.get", "get") and x.a[1] and is_str(x.a[1][0], "DATA_OPTIMIZER_NODE_RANK"):
            return True
    return False


def is_str(t, s):
    t = strip(t)
    return t is const(s)


def is_count(x):
    """number of workers of a process"""
    x = peel(strip(x))
    if x.k == "ite":
        leaves = [v for g, v in galts(x)]
        return all(is_const(v) or v.k == "phi" or is_count(v) for v in leaves) and any(is_count(v) for v in leaves)
    if x.k == "call" and fname(x).split(".")[-1] == "_get_default_num_workers":
        return True
    if x.k == "attr" and x.a[1] in ("num_workers", "_num_workers", "num_workers_per_process"):
        return True
    if x.k == "attr" and x.a[1] == "world_size":
        return from_worker_env(x.a[0])
    if x.k == "param" and x.a[0] in ("num_workers", "num_workers_per_process"):
        return True
    if x.k == "sub" and is_str(x.a[1], "num_workers"):
        return True
    return False


def from_worker_env(b):
    b = strip(b)
    return (b.k == "attr" and b.a[1] in ("worker_env", "_worker_env")) or (b.k == "param" and b.a[0] == "worker_env") or (b.k in ("call", "new") and "_WorkerEnv" in show(b, 3))


def is_worker(x):
    """number of this worker within its process"""
    x = peel(strip(x))
    if x.k == "attr" and x.a[1] in ("rank", "current_worker_rank"):
        return from_worker_env(x.a[0])
    if x.k == "attr" and x.a[1] in ("worker_index", "_worker_index"):
        return True
    return x.k == "param" and x.a[0] in ("worker_index", "worker_rank", "worker_idx")


def has_rank(x):
    return mentions(x, is_rank)


def node_part(x):
    """first rank of the node: (rank // processes per node), to be multiplied by processes per node; or None"""
    x = peel(strip(x))
    if x.k == "op" and x.a[0] in ("FloorDiv", "Mod") and is_rank(x.a[1]):
        return x.a[0], peel(strip(x.a[2]))
    return None


def ok_product(mono):
    """monomial (a product) with a rank among its factors"""
    f = [peel(strip(y)) for y in mono]
    ranks = [y for y in f if is_rank(y)]
    nodes = [(y, node_part(y)) for y in f if node_part(y)]
    if len(ranks) == 1 and not nodes:
        rest = [y for y in f if y is not ranks[0]]
        if len(rest) == 1:
            if is_count(rest[0]):
                return True
            if rest[0].k == "attr" and rest[0].a[1] in ("world_size", "num_nodes"):
                return False
            if rest[0].k == "call" and fname(rest[0]).split(".")[-1] in ("_get_num_nodes", "get_num_nodes"):
                return False
            if rest[0].k in ("phi", "op", "call", "param", "ite"):
                return None
            return False
        if len(rest) == 2 and any(is_count(y) for y in rest):
            # node rank * processes per node * workers per process would be fine, rank * anything else is not
            return None
        return None
    if len(nodes) == 1 and not ranks:
        y, (op, n) = nodes[0]
        rest = [z for z in f if z is not y]
        if op == "FloorDiv":
            if len(rest) == 1 and rest[0] is n:
                return True  # first rank of the node
            if len(rest) == 2 and n in rest:
                other = [z for z in rest if z is not n]
                return bool(other) and is_count(other[0])
            return False
        return len(rest) == 1 and is_count(rest[0])  # local rank * workers
    return None


def polys(t):
    """outermost sums and products"""
    out = []
    seen = set()

    def go(x):
        if not isinstance(x, T) or x in seen:
            return
        seen.add(x)
        it = tm.poly_items(x)
        if len(it) > 1 or any(len(m) > 1 for m in it) or any(v != 1 for v in it.values()):
            out.append(x)
            for m in it:
                for y in m:
                    for z in tm.children(y):
                        go(z)
            return
        for z in tm.children(x):
            go(z)

    go(t)
    return out


def event_terms(e, c):
    return [t for t in [e.term, e.value, e.idx] + list(e.args) + list(e.kw.values()) + [l.iter for l in c.loops] + list(c.guards) if isinstance(t, T)]


def short(q):
    return ".".join(q.split(".")[-2:])


def formulas(P, R):
    n = 0
    for q, f in sorted(P.funcs.items()):
        if f.module.name in SKIP_MODS:
            continue
        seen = set()
        for e, c in own_events(P, f):
            for t in event_terms(e, c):
                if not has_rank(t):
                    continue
                for x in subterms(t):
                    if x.k == "call" and fname(x) == "range" and x not in seen and len(x.a[1]) > 1 and has_rank(x.a[1][0]):
                        seen.add(x)
                        n += 1
                        ok = span(mk("slice", x.a[1][0], x.a[1][1])) if len(x.a[1]) == 2 else False
                        R.ob("formula", f"{short(q)}: workers of the process or node", ok, show(x, 5), e.where)
                for x in polys(t):
                    if x in seen:
                        continue
                    seen.add(x)
                    it = tm.poly_items(x)
                    ones = [m for m in it if len(m) == 1 and (is_rank(m[0]) or (node_part(m[0]) or (0,))[0] == "Mod")]
                    swapped = [m for m in it if len(m) > 1 and any(is_worker(y) for y in m)]
                    if swapped and len(ones) == 1:
                        R.ob("formula", f"{short(q)}: {show(x, 3)[:60]}", False, "the worker number is multiplied, not the rank: " + show(x, 5), e.where)
                    prods = [m for m in tm.poly_items(x) if any(is_rank(y) or node_part(y) for y in m) and len(m) > 1]
                    if not prods:
                        continue
                    n += 1
                    for m in prods:
                        ok = ok_product(m)
                        R.ob("formula", f"{short(q)}: {show(x, 3)[:60]}", ok, show(x, 5), e.where)
                    # the worker added must be this one's number within the process
                    for m, v in tm.poly_items(x).items():
                        if len(m) == 1 and peel(strip(m[0])).k == "attr" and peel(strip(m[0])).a[1] == "rank" and abs(v) == 1:
                            R.ob("formula", f"{short(q)}: worker added", is_worker(m[0]), show(x, 5), e.where)
    need(range(n), "rank formulas", 8)


def global_number(t, need_worker=True):
    """t == rank * workers + worker; (rank, count) or None"""
    it = tm.poly_items(peel(strip(t)))
    prod = [m for m, v in it.items() if len(m) == 2 and v == 1 and any(is_rank(y) for y in m) and any(is_count(y) for y in m)]
    wk = [m for m, v in it.items() if len(m) == 1 and v == 1 and is_worker(m[0])]
    if len(prod) == 1 and len(it) == (2 if need_worker else 1) and (len(wk) == 1 or not need_worker):
        r = [y for y in prod[0] if is_rank(y)][0]
        w = [y for y in prod[0] if is_count(y)][0]
        return peel(strip(r)), peel(strip(w))
    return None


def numbers(P, R):
    # rank properties
    n = 0
    for q in ("streaming.writer.BinaryWriter.rank", "streaming.reader.BinaryReader.rank", "streaming.cache.Cache.rank"):
        f = P.func(q)
        R.unit(f.qual)
        seq, ev = evaluate(P, f, opaque={"detect"})
        st = [e for e, c in flow.walk(seq) if e.kind == "store" and e.attr == "_rank"]
        vals = [v for e in st for g, v in galts(e.value)] or [v for g, v in galts(ev.ret) if not mentions_attr(v, "_rank")]
        got = False
        for v in vals:
            v = peel(strip(v))
            if mentions(v, lambda x: x is const("DATA_OPTIMIZER_GLOBAL_RANK")):
                ok = v.k == "call" and fname(v).split(".")[-1] in ("getenv", "get")
                R.ob("number", f"{short(q)} announced", ok, show(v, 4), f.where)
                continue
            if v is NONE:
                continue
            got = True
            n += 1
            R.ob("number", short(q), global_number(v) is not None, show(v, 5), f.where)
        R.must("number", f"{short(q)} detected", [1] if got else [], "no number computed", f.where)
        for g, v in galts(ev.ret):
            v = strip(v)
            R.ob("number", f"{short(q)} returned", self_attr(v, "_rank") or any(strip(y) is v for y in vals for y in [y]) or v in [strip(y) for y in vals] or None, show(v, 4), f.where)
    # the worker of optimize announces its number
    for q, f in sorted(P.funcs.items()):
        for e, c in own_events(P, f):
            if e.kind == "setitem" and is_str(e.idx, "DATA_OPTIMIZER_GLOBAL_RANK"):
                n += 1
                R.ob("number", f"{short(q)}: announced number", global_number(e.value) is not None, show(e.value, 5), e.where)
            if e.kind == "setitem" and is_str(e.idx, "DATA_OPTIMIZER_NUM_WORKERS"):
                R.ob("number", f"{short(q)}: announced count", is_count(e.value), show(e.value, 5), e.where)
            if e.kind == "store" and e.attr == "_rank" and not f.name == "rank" and e.value is not NONE and not (strip(e.value).k == "const"):
                n += 1
                if strip(e.value).k == "param":
                    handed(P, R, f, strip(e.value).a[0])
                    continue
                R.ob("number", f"{short(q)}: number of the {show(e.base, 2)}", global_number(e.value) is not None, show(e.value, 5), e.where)
    f = P.func("utilities.env.Environment.shard_rank")
    seq, ev = evaluate(P, f)
    R.ob("number", "shard_rank", any(global_number(v) for g, v in galts(ev.ret)), show(ev.ret, 5), f.where)
    f = P.func("utilities.env.Environment.num_shards")
    seq, ev = evaluate(P, f)
    v = strip(ev.ret)
    it = list(tm.poly_items(v).items())
    ok = len(it) == 1 and it[0][1] == 1 and len(it[0][0]) == 2 and {"dist_env" if mentions_attr(y, "dist_env") else "worker_env" if mentions_attr(y, "worker_env") else "?" for y in it[0][0]} == {"dist_env", "worker_env"}
    R.ob("number", "num_shards", ok, show(v, 5), f.where)
    need(range(n), "numbers of workers", 4)
    # the chunk number an appending run starts at belongs to the worker of this node
    f = P.func("processing.functions.optimize")
    for e, c in own_events(P, f):
        if e.kind == "setitem" and mentions_call(e.idx, "extract_rank_and_index_from_filename"):
            it = tm.poly_items(strip(e.idx))
            pr = [(m, v) for m, v in it.items() if len(m) == 2 and any(is_rank(y) for y in m)]
            R.ob("number", "worker of an existing chunk", len(pr) == 1 and pr[0][1] == -1 and any(is_count(y) or True for y in pr[0][0]), show(e.idx, 5), e.where)


def handed(P, R, f, pname):
    """the number an object is given when it is made is the number of its maker"""
    for q, g in sorted(P.funcs.items()):
        for e, c in own_events(P, g):
            if target_of(P, e) is f:
                a = passed(e, f)
                v = strip(a.get(pname)) if a and a.get(pname) is not None else None
                ok = None if v is None else (is_attr(v, "rank") or is_attr(v, "_rank")) and v.a[0].k == "self" or global_number(v) is not None
                R.ob("number", f"{short(q)} -> {short(f.qual)}", ok, show(v, 4) if v is not None else "", e.where)


# ------------------------------------------------------------------ shares
def shares(P, R):
    n = 0
    for q, f in sorted(P.funcs.items()):
        if not f.module.name.startswith("litdata.streaming"):
            continue
        for e, c in own_events(P, f):
            for t in event_terms(e, c):
                for x in subterms(t):
                    if x.k != "sub" or len(x.a) < 2:
                        continue
                    b = strip(x.a[0])
                    if not table(b):
                        continue
                    i = strip(x.a[1])
                    if is_const(i):
                        continue
                    if i.k == "slice":
                        n += 1
                        R.ob("share", f"{short(q)}: entries of a process or node", span(i), show(i, 6), e.where)
                        continue
                    if i.k == "elem" and table(i.a[0]):
                        continue  # runs over the table itself
                    g = global_number(i)
                    if g is None:
                        rng = the_range(i)
                        if rng is not None:
                            ok = span(rng)
                        elif i.k in ("phi", "idx", "elem", "comp", "call"):
                            ok = None
                        else:
                            ok = False if has_rank(i) or is_worker(i) else None
                        R.ob("share", f"{short(q)}: entry of the worker", ok, show(i, 5), e.where)
                        n += 1
                        continue
                    n += 1
                    R.ob("share", f"{short(q)}: entry of the worker", True, show(i, 5), e.where)
                    # assignment made for the same count
                    for y in subterms(b):
                        if y.k == "call" and fname(y).split(".")[-1] == "get_chunks_and_intervals_per_workers" and len(y.a[1]) > 1:
                            R.ob("share", f"{short(q)}: assignment for as many workers", peel(strip(y.a[1][1])) is g[1], f"made for {show(y.a[1][1], 3)}, taken by {show(g[1], 3)}", e.where)
    need(range(n), "shares taken", 4)


def table(b):
    """the assignment of all workers: result of get_chunks_and_intervals_per_workers [0] or [1], or a parameter holding it"""
    b = strip(b)
    if b.k == "sub" and is_const(b.a[1]):
        y = strip(b.a[0])
        return y.k == "call" and fname(y).split(".")[-1] == "get_chunks_and_intervals_per_workers"
    return b.k == "param" and b.a[0] in ("workers_chunks", "workers_intervals")


def the_range(i):
    """i runs through range(lo, hi): an object with those bounds as .a"""
    if i.k in ("elem", "idx"):
        r = strip(i.a[0])
        if r.k == "call" and fname(r) == "range" and len(r.a[1]) == 2:
            return mk("slice", r.a[1][0], r.a[1][1])
    return None


def span(s):
    """[first worker : first worker + number of workers] of this process or node"""
    lo, hi = s.a[0], s.a[1]
    if not isinstance(lo, T) or not isinstance(hi, T):
        return False
    lo, hi = strip(lo), strip(hi)
    size = strip(tm.sub(hi, lo))
    it = tm.poly_items(lo)
    if len(it) != 1:
        return None if not has_rank(lo) else False
    (m, v), = it.items()
    if v != 1:
        return False
    f = [peel(strip(y)) for y in m]
    if any(is_rank(y) for y in f):
        w = [y for y in f if not is_rank(y)]
        if len(w) != 1:
            return None
        if not is_count(w[0]):
            return False
        return peel(size) is w[0]
    nd = [(y, node_part(y)) for y in f if node_part(y)]
    if len(nd) == 1 and nd[0][1][0] == "FloorDiv":
        rest = sorted((y for y in f if y is not nd[0][0]), key=repr)
        want = strip(nd[0][1][1])
        if want not in rest:
            return False
        rest.remove(want)
        if len(rest) != 1 or not is_count(rest[0]):
            return False
        return size is strip(tm.mul(want, rest[0]))
    return None if not has_rank(lo) else False


# ------------------------------------------------------------------ detection
FIELDS = {
    "world_size": ({"WORLD_SIZE"}, {"get_world_size"}),
    "global_rank": ({"GLOBAL_RANK"}, {"get_rank"}),
    "num_nodes": ({"NNODES"}, {"device_count"}),
}
OPT = {"world_size": {"DATA_OPTIMIZER_NUM_WORKERS", "DATA_OPTIMIZER_NUM_NODES"}, "global_rank": {"DATA_OPTIMIZER_GLOBAL_RANK"}, "num_nodes": {"DATA_OPTIMIZER_NUM_NODES"}}
NAMES = {"WORLD_SIZE", "GLOBAL_RANK", "NNODES", "DATA_OPTIMIZER_NUM_WORKERS", "DATA_OPTIMIZER_NUM_NODES", "DATA_OPTIMIZER_GLOBAL_RANK", "DATA_OPTIMIZER_NODE_RANK", "LOCAL_RANK", "NODE_RANK", "RANK"}


def strings(t):
    return {eval_str(x) for x in subterms(t) if x.k == "const" and x.a[0] == "str"} & NAMES


def made(ev, cls):
    """(guard, {field: value}) of the objects of class cls returned"""
    out = []
    for g, v in galts(ev.ret):
        v = strip(v)
        if v.k in ("call", "new") and cls in show(v, 1) + fname(v):
            kw = {}
            for part in v.a:
                if isinstance(part, tuple):
                    for y in part:
                        if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str):
                            kw[y[0]] = y[1]
            args = [y for part in v.a[1:] if isinstance(part, tuple) for y in part if isinstance(y, T)]
            out.append((g, kw, args))
    return out


def detection(P, R):
    f = P.func("utilities.env._DistributedEnv.detect")
    seq, ev = evaluate(P, f)
    R.unit(f.qual)
    ini = P.func("utilities.env._DistributedEnv.__init__")
    objs = made(ev, "_DistributedEnv")
    R.must("detect", "process environment", objs, "nothing recognised", f.where)
    for g, kw, args in objs:
        kw = {**dict(zip([p for p in ini.params if p != "self"], args)), **kw}
        opt = any("DATA_OPTIMIZER" in s for v in kw.values() for s in strings(v))
        for name in FIELDS:
            if name not in kw:
                R.ob("detect", f"{name} given", False, "", f.where)
                continue
            v = kw[name]
            ss = strings(v)
            want = OPT[name] if opt else FIELDS[name][0]
            R.ob("detect", f"{name} {'in map or optimize' if opt else 'in training'}", ss == want, f"read from {sorted(ss)}: {show(v, 4)}", f.where)
            if not opt:
                own = FIELDS[name][1]
                R.ob("detect", f"{name} of the running training", mentions_call(v, *own) and not (name != "num_nodes" and any(mentions_call(v, *FIELDS[o][1]) for o in FIELDS if o != name and not o == "num_nodes")), show(v, 6), f.where)
            if opt and name == "world_size":
                it = list(tm.poly_items(strip(v)).items())
                R.ob("detect", "workers of all nodes", len(it) == 1 and len(it[0][0]) == 2 and it[0][1] == 1, show(v, 4), f.where)
            if name == "global_rank":
                dflt = [x for x in subterms(v) if x.k == "call" and len(x.a[1]) == 2 and fname(x).split(".")[-1] in ("get", "getenv")]
                for x in dflt:
                    d = strip(x.a[1][1])
                    R.ob("detect", "rank without a training", all(w in (ZERO, const("0")) or mentions_call(w, "get_rank") for gg, w in galts(d)), show(d, 4), f.where)
    for cls, fields in (("_DistributedEnv", ("world_size", "global_rank", "num_nodes")), ("_WorkerEnv", ("world_size", "rank"))):
        g = P.func(f"utilities.env.{cls}.__init__")
        for e, c in own_events(P, g):
            if e.kind == "store" and e.attr in fields:
                R.ob("detect", f"{cls}.{e.attr} kept", strip(e.value) is mk("param", e.attr), show(e.value, 3), e.where)
    f = P.func("utilities.env._WorkerEnv.detect")
    seq, ev = evaluate(P, f)
    ini = P.func("utilities.env._WorkerEnv.__init__")
    objs = made(ev, "_WorkerEnv")
    R.must("detect", "worker environment", objs, "nothing recognised", f.where)
    kws = [{**dict(zip([p for p in ini.params if p != "self"], args)), **kw} for g, kw, args in objs]
    for name, src, dflt in (("world_size", "num_workers", ONE), ("rank", "id", ZERO)):
        al = [strip(w) for kw in kws if name in kw for gg, w in galts(kw[name])]
        ok = all(w is dflt or is_attr(w, src) for w in al) and any(is_attr(w, src) for w in al) if al else None
        R.ob("detect", f"{name} of a worker", ok, "; ".join(show(w, 4) for w in al), f.where)


def env_names(P, R):
    """the same quantity is read from the same variable everywhere"""
    want = {"_get_node_rank": ("DATA_OPTIMIZER_NODE_RANK", ZERO), "get_node_rank": ("DATA_OPTIMIZER_NODE_RANK", ZERO),
            "_get_num_nodes": ("DATA_OPTIMIZER_NUM_NODES", ONE), "get_num_nodes": ("DATA_OPTIMIZER_NUM_NODES", ONE)}
    n = 0
    for q, f in sorted(P.funcs.items()):
        if f.name in want:
            seq, ev = evaluate(P, f)
            v = peel(strip(ev.ret))
            name, d = want[f.name]
            n += 1
            ok = v.k == "call" and fname(v).split(".")[-1] in ("getenv", "get") and len(v.a[1]) == 2 and is_str(v.a[1][0], name)
            R.ob("env-names", short(q), ok if ok or strings(v) else None, show(v, 4), f.where)
            if ok:
                dv = strip(v.a[1][1])
                R.ob("env-names", f"{short(q)} without it", dv is d or (dv.k == "const" and eval_str(dv) == str(d.a[1])), show(dv, 2), f.where)
    need(range(n), "readers of node number and count", 3)
    f = P.func("utilities.env._is_in_map_or_optimize")
    seq, ev = evaluate(P, f)
    R.ob("env-names", "inside map or optimize", strings(ev.ret) == {"DATA_OPTIMIZER_GLOBAL_RANK"}, show(ev.ret, 4), f.where)
    # announced before anything in the worker can ask for it
    cls = P.cls("processing.data_processor.BaseWorker")
    setter = [m for m in P.funcs.values() if m.cls is cls and any(e.kind == "setitem" and is_str(e.idx, "DATA_OPTIMIZER_GLOBAL_RANK") for e, c in own_events(P, m))]
    need(setter, "announcement of the number of a worker")
    names = {m.name for m in setter}
    for m in P.funcs.values():
        if m.cls is cls and any(e.kind == "call" and e.name in names for e, c in own_events(P, m)):
            seq, ev = evaluate(P, m, policy=lambda *a: False)
            seen, bad = before(seq, lambda e: e.kind == "call" and e.name in names, lambda e: e.kind == "call" and e.name in ("_create_cache", "_setup", "_start_downloaders", "_start_uploaders", "_loop"))
            R.ob("env-names", f"{short(m.qual)}: number announced first", not [b for b in bad if b.name in ("_create_cache",)], "; ".join(b.where for b in bad[:2]), m.where)


def late(P, R):
    n = 0
    for q in ("streaming.writer.BinaryWriter", "streaming.reader.BinaryReader", "streaming.cache.Cache", "streaming.dataset.StreamingDataset", "streaming.combined.CombinedStreamingDataset"):
        c = P.cls(q)
        f = c.find("__init__")
        seq, ev = evaluate(P, f, policy=lambda a, b, d: d < 5 and b.module is f.module and b.name != "detect")
        R.unit(f.qual)
        bad = []
        early = []
        for e, cx in flow.walk(seq):
            if e.kind == "store":
                if mentions(e.value, lambda x: x.k in ("call", "new") and "_WorkerEnv" in fname(x) + show(x, 1)):
                    bad.append(e)
        n += 1
        R.ob("detected-late", f"{c.name}.__init__", not bad, "; ".join(f"{e.attr} remembers the worker" for e in bad), bad[0].where if bad else f.where)
        early = [e for e, cx in own_events(P, f) if (e.kind == "store" and e.attr in ("_distributed_env", "distributed_env") and (e.value.k in ("call", "new") and "_DistributedEnv" in show(e.value, 3)))]
        uses = any(isinstance(x, ast.Attribute) and x.attr in ("_distributed_env", "distributed_env") for m in P.funcs.values() if m.cls is c for x in P.nodes(m))
        if uses:
            R.ob("detected-early", f"{c.name}.__init__", bool(early), "the process rank is not taken here", f.where)
    need(range(n), "classes that number workers", 4)
    # a dataset looks its worker up at the beginning of each pass
    f = P.func("streaming.dataset.StreamingDataset.__iter__")
    seq, ev = evaluate(P, f, policy=lambda *a: False)
    seen, bad = before(seq, lambda e: e.kind == "store" and e.attr == "worker_env" and "_WorkerEnv" in show(e.value, 2), lambda e: e.kind == "call" and e.name == "get_chunks_and_intervals_per_workers")
    R.ob("detected-late", "the pass of a dataset", bool(seen) and not bad, "", f.where)


def grouping(P, R):
    f = P.func("utilities.shuffle._group_chunks_by_nodes")
    seq, ev = evaluate(P, f)
    R.unit(f.qual)
    ws, nn, nw = mk("param", "world_size"), mk("param", "num_nodes"), mk("param", "num_workers_per_process")
    want = mk("op", "FloorDiv", ws, nn)
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name in ("extend", "append") and strip(e.recv).k == "sub":
            i = strip(strip(e.recv).a[1])
            ok = None
            if i.k == "op" and i.a[0] == "FloorDiv":
                num, den = strip(i.a[1]), strip(i.a[2])
                if den is want and num.k == "op" and num.a[0] == "FloorDiv":
                    ok = strip(num.a[1]).k == "idx" and strip(num.a[2]) is nw
                elif num.k == "idx":
                    ok = den is strip(tm.mul(want, nw))
                else:
                    ok = False
            if not mentions(i, lambda x: x is nw) and mentions(i, lambda x: x.k == "idx"):
                ok = False  # the number of workers of a process does not matter to it
            R.ob("grouping", "workers by node", ok, show(i, 5), e.where)
    f = P.func("utilities.shuffle._aggregate_shared_chunks_per_rank")
    nw = mk("param", f.params[1])
    for e, c in own_events(P, f):
        if e.kind == "call" and e.name == "append" and strip(e.recv).k == "sub":
            i = strip(strip(e.recv).a[1])
            R.ob("grouping", "workers by process", (i.k == "op" and i.a[0] == "FloorDiv" and strip(i.a[2]) is nw and strip(i.a[1]).k == "elem") or (None if i.k != "op" else False), show(i, 4), e.where)
    f = P.func("utilities.shuffle._find_chunks_per_workers_on_which_to_skip_deletion")
    nw = mk("param", f.params[0])
    for e, c in own_events(P, f):
        for t in event_terms(e, c):
            for x in subterms(t):
                if x.k == "sub" and strip(x.a[0]).k == "param" and strip(x.a[0]).a[0] in ("workers_chunks", "workers_intervals"):
                    i = strip(x.a[1])
                    lo, hi = (i.a[0], i.a[1]) if i.k == "slice" else (i.a[1][0], i.a[1][1]) if i.k == "call" and fname(i) == "slice" and len(i.a[1]) > 1 else (None, None)
                    if isinstance(lo, T) and isinstance(hi, T):
                        it = tm.poly_items(strip(lo))
                        ok = len(it) == 1 and any(strip(y) is nw for m in it for y in m) and strip(tm.sub(hi, lo)) is nw
                        R.ob("grouping", "workers of a process", ok, show(i, 4), e.where)
