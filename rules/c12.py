"""C12: the order of samples is a function of seed, epoch and layout only."""
from .common import *

MODS = ("litdata.streaming.shuffle", "litdata.streaming.dataset", "litdata.streaming.combined", "litdata.streaming.sampler",
        "litdata.streaming.dataloader", "litdata.streaming.config", "litdata.streaming.reader",
        "litdata.utilities.shuffle", "litdata.utilities.subsample", "litdata.utilities.train_test_split", "litdata.utilities.dataset_utilities")
MAKERS = {"numpy.random.RandomState", "numpy.random.default_rng", "numpy.random.Generator", "random.Random", "torch.Generator", "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.MT19937"}
SEEDERS = {"random.seed", "numpy.random.seed", "torch.manual_seed"}
UNSTABLE = {"time.time", "time.time_ns", "time.perf_counter", "time.monotonic", "os.getpid", "os.getppid", "os.urandom", "uuid.uuid4", "uuid.uuid1", "id", "hash",
            "os.getenv", "os.environ", "socket.gethostname", "threading.get_ident", "datetime.datetime.now", "secrets.token_bytes", "secrets.randbits", "object", "time.process_time"}
DRAWS = {"choices", "choice", "shuffle", "permutation", "sample", "random", "randint", "randrange", "integers", "permuted", "uniform", "rand"}
UNORDERED = {"set", "frozenset", "os.listdir", "os.scandir", "glob.glob", "glob.iglob"}
MUTATE = {"append", "extend", "pop", "insert", "remove", "clear", "sort", "reverse", "popleft", "appendleft"}


def is_global_draw(name):
    if name.startswith("random.") and name not in MAKERS and name not in SEEDERS and not name.startswith("random.Random"):
        return name.split(".")[-1] in DRAWS or name.split(".")[-1] in ("getrandbits", "gauss", "betavariate", "triangular")
    if name.startswith("numpy.random.") and name not in MAKERS and name not in SEEDERS and not name.startswith(tuple(m + "." for m in MAKERS)):
        return True
    return name in ("torch.randperm", "torch.rand", "torch.randint", "torch.randn", "torch.multinomial", "torch.bernoulli")


def check(P, R):
    R.rule("seeded", "every random generator that the order comes from is made from the configured seed (and epoch and positions), without clock, process identity or hash")
    R.rule("no-global", "no draw from a global random generator decides which samples are read or in which order")
    R.rule("same-on-all-ranks", "neither rank, worker number nor environment enters the random draws and the assignment all ranks have to agree on")
    R.rule("epoch", "the seed of a draw contains the epoch (and the place of the chunk) it is for")
    R.rule("set-order", "no list of chunks or samples takes its order from a set or from a directory listing")
    R.rule("cached", "a remembered assignment depends on its arguments and on fixed attributes only, and is never modified by those who get it")
    R.part(P, draws, epoch, ranks, order, cached)


def dotted_call(P, m, node):
    """canonical dotted name of a call written a.b.c(...)"""
    fn = node.func
    parts = []
    while isinstance(fn, ast.Attribute):
        parts.append(fn.attr)
        fn = fn.value
    if not isinstance(fn, ast.Name):
        return ""
    parts.append(fn.id)
    return ".".join(reversed(parts))


def events_of(P, q):
    try:
        seq, ev = evaluate(P, P.funcs[q], policy=lambda *a: False)
    except AnalysisBroken:
        return []
    return list(flow.walk(seq))


def funcs_of(P):
    for q, f in sorted(P.funcs.items()):
        if f.module.name in MODS:
            yield q, f


def gen_of(name):
    return name in MAKERS


def draws(P, R):
    n = 0
    for q, f in funcs_of(P):
        evs = events_of(P, q)
        R.unit(f.qual)
        for e, c in evs:
            if e.kind == "call" and e.recv is not None and e.name in DRAWS:
                for g, v in galts(e.recv):
                    v = strip(v)
                    if v.k in ("ext", "glob", "mod", "module") and str(v.a[0]) in ("random", "numpy.random", "torch") and not e.callee:
                        R.ob("no-global", f"{short(q)}: {v.a[0]}.{e.name}", False, "drawn from the global generator", e.where)
            if e.kind != "call" or not e.callee:
                continue
            if is_global_draw(e.callee):
                gen = e.kw.get("generator")
                R.ob("no-global", f"{f.cls.name if f.cls is not None else short(q)}: {e.callee}", gen is not None and gen is not NONE, "drawn from the global generator: other processes or other random calls change it", e.where)
            if gen_of(e.callee):
                n += 1
                args = list(e.args) + list(e.kw.values())
                t = mk("tuple", tuple(args))
                seedy = mentions(t, lambda x: (x.k in ("param", "attr") and (x.a[0] if x.k == "param" else x.a[1]).lstrip("_") in ("seed", "random_seed")) or (x.k == "sub" and is_key(x, "seed")))
                R.ob("seeded", f"{short(q)}: {e.callee}", seedy and bool(args), f"made from {show(t, 5)}", e.where)
                bad = sorted({x.a[0] for x in subterms(t) if x.k in ("ext", "glob") and x.a[0] in UNSTABLE} | {"os.environ" for x in subterms(t) if x.k == "ext" and x.a[0].startswith("os.environ")})
                R.ob("seeded", f"{short(q)}: {e.callee} stable", not bad, f"seed depends on {bad}", e.where)
                rk = sorted({x.a[1] for x in subterms(t) if x.k == "attr" and x.a[1] in ("rank", "global_rank", "worker_env", "node_rank")} | {x.a[0] for x in subterms(t) if x.k == "param" and x.a[0] in ("rank", "global_rank", "worker_rank", "worker_id")} | {"worker info" for x in subterms(t) if x.k == "call" and fname(x).split(".")[-1] in ("detect", "get_worker_info", "get_rank")})
                R.ob("same-on-all-ranks", f"{short(q)}: {e.callee}", not rk, f"seed depends on {rk}", e.where)
        # a generator given as an argument, or kept in an attribute
        for e, c in evs:
            if e.kind == "call" and e.name in DRAWS and e.recv is not None and not (e.callee or "").startswith(("random.", "numpy.random.", "torch.")):
                r = strip(e.recv)
                if any("rng" in str(x.a[-2 if x.k == "attr" else 0]).lower() or "sampler" in str(x.a[0] if x.k == "param" else x.a[1]).lower() for x in [r] if x.k in ("attr", "param")):
                    n += 1
                    R.ob("seeded", f"{short(q)}: draw {e.name}", True, show(r, 3), e.where)
    need(range(n), "random generators", 5)


def short(q):
    return ".".join(q.split(".")[-2:])


def epoch(P, R):
    want = {
        "streaming.shuffle.FullShuffle.__call__": ("seed", "current_epoch", "chunk_index"),
        "streaming.shuffle.FullShuffle.get_chunks_and_intervals_per_workers": ("seed",),
        "utilities.shuffle._intra_node_chunk_shuffle": ("seed", "current_epoch"),
    }
    for q, keys in want.items():
        if not any(x.endswith(q) for x in P.funcs):
            continue
        f = P.func(q)
        seq, ev = evaluate(P, f, policy=lambda c, d, n: d.module is c.module)
        gens = [e for e, c in flow.walk(seq) if e.kind == "call" and e.callee and gen_of(e.callee)]
        R.must("epoch", short(q), gens, "no generator made here", f.where)
        for e in gens:
            t = mk("tuple", tuple(e.args) + tuple(e.kw.values()))
            for k in keys:
                ok = mentions(t, lambda x: (x.k == "param" and x.a[0] == k) or (x.k == "attr" and x.a[1] == k))
                R.ob("epoch", f"{short(q)}: {k}", ok, show(t, 6), e.where)
            if not keys[-1] == "seed":
                continue
            # on one node every epoch has its own order
            for x in [y for a in t.a[0] for y in (a.a[0] if a.k in ("list", "tuple") else (a,))]:
                if mentions(x, lambda y: y.k == "param" and y.a[0] == "current_epoch"):
                    for g, v in galts(x):
                        one_node = any(single_node(l) for l in tm.literals(g))
                        if one_node or g is TRUE:
                            R.ob("epoch", f"{short(q)}: on one node", mentions(v, lambda y: y.k == "param" and y.a[0] == "current_epoch"), show(x, 5), e.where)
                    break
            else:
                R.ob("epoch", f"{short(q)}: on one node", False, "the same order in every epoch: " + show(t, 5), e.where)
    # the generators are used to order the right things
    f = P.func("streaming.shuffle.FullShuffle.__call__")
    seq, ev = evaluate(P, f)
    v = strip(ev.ret)
    R.ob("epoch", "order of a chunk", mentions(v, lambda x: x.k == "call" and fname(x) in ("permutation", "permuted", "shuffle")) and mentions(v, lambda x: x.k == "param" and x.a[0] == f.params[1]), show(v, 5), f.where)
    f = P.func("streaming.shuffle.NoShuffle.__call__")
    seq, ev = evaluate(P, f)
    v = peel(strip(ev.ret))
    R.ob("epoch", "order of a chunk without shuffling", v is mk("param", f.params[1]), show(ev.ret, 4), f.where)


def single_node(l):
    l = strip(l)
    if l.k == "not":
        return False
    if l.k == "eq":
        return mentions_attr(l, "num_nodes") and ONE in l.a
    if l.k in ("le", "lt"):
        at = [x for x in subterms(l) if is_attr(x, "num_nodes")]
        return bool(at) and implies_ge(l, ONE, at[0])
    return False


def ranks(P, R):
    for cls in ("FullShuffle", "NoShuffle"):
        f = P.func(f"streaming.shuffle.{cls}.get_chunks_and_intervals_per_workers")
        seq, ev = evaluate(P, f, policy=lambda c, d, n: n < 6 and d.module.name in MODS)
        seen = {f.qual}
        bad = []
        stack = [seq]
        for e, c in flow.walk(seq):
            for t in [e.term, e.value, e.idx] + list(c.guards) + [l.iter for l in c.loops] + [l.cond for l in c.loops]:
                if not isinstance(t, T):
                    continue
                for x in subterms(t):
                    if x.k == "attr" and x.a[1] in ("global_rank", "rank", "node_rank", "worker_env"):
                        bad.append((x, e))
                    if x.k == "call" and (fname(x).split(".")[-1] in ("detect", "get_worker_info", "get_rank", "getenv") or fname(x) in UNSTABLE):
                        bad.append((x, e))
        R.unit(f.qual)
        R.ob("same-on-all-ranks", f"assignment of {cls}", not bad, "; ".join(show(x, 3) for x, _ in bad[:3]), bad[0][1].where if bad else f.where)
        # the chunks handed to the assignment come from the index, all of them
        asg = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and (e.callee or "").endswith("_associate_chunks_and_intervals_to_workers")]
        need(asg, f"assignment in {cls}")


def order(P, R):
    n = 0
    for q, f in funcs_of(P):
        n += 1
        for node in P.nodes(f):
            it = None
            if isinstance(node, (ast.For, ast.AsyncFor)):
                it = [node.iter]
            elif isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                it = [g.iter for g in node.generators]
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("list", "tuple", "enumerate", "zip", "next", "iter"):
                it = node.args
            elif isinstance(node, ast.Starred):
                it = [node.value]
            for x in it or ():
                if isinstance(x, (ast.Set, ast.SetComp)):
                    R.ob("set-order", short(q), False, ast.unparse(x)[:80], f"{f.module.rel}:{x.lineno}")
                if isinstance(x, ast.Call):
                    nm = dotted_call(P, f.module, x)
                    if nm in UNORDERED or nm.split(".")[-1] in ("union", "intersection", "difference", "symmetric_difference"):
                        if order_free(f, node, x):
                            continue
                        R.ob("set-order", short(q), False, ast.unparse(x)[:80], f"{f.module.rel}:{x.lineno}")
    R.ob("set-order", "functions without a hash-ordered or directory-ordered list", n > 0, f"{n} functions")


def order_free(f, node, x):
    """the loop only counts, deletes or tests the elements: nothing it produces keeps their order"""
    parents = {c: p for p in ast.walk(f.node) for c in ast.iter_child_nodes(p)}
    p = parents.get(node)
    if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ("sorted", "sum", "max", "min", "len", "any", "all", "set", "frozenset", "dict"):
        return True
    if isinstance(node, ast.For):
        text = " ".join(ast.unparse(s) for s in node.body)
        return not any(w in text for w in (".append(", ".extend(", "yield", "+=", "return ")) or any(w in text for w in ("os.remove", "rmtree"))
    return False


def cached(P, R):
    n = 0
    for q, f in sorted(P.funcs.items()):
        if f.module.name not in MODS:
            continue
        deco = [ast.unparse(d) for d in f.node.decorator_list]
        if not any("lru_cache" in d or d.split(".")[-1] in ("cache", "cache()") for d in deco):
            continue
        n += 1
        reads = {x.attr for x in P.nodes(f) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load)}
        cls = f.cls
        stores = []
        for m in (P.funcs.values() if cls is not None else ()):
            if m.cls is None or m.module is not f.module or m.name == "__init__":
                continue
            if m.cls is not cls and not (cls in getattr(m.cls, "bases", ()) or m.cls.name in [getattr(b, "name", b) for b in getattr(cls, "bases", ())]):
                continue
            for x in P.nodes(m):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in reads:
                    stores.append(f"{m.name} sets {x.attr}")
        R.ob("cached", f"{short(q)} depends on fixed attributes", not stores, "; ".join(stores), f.where)
    need(range(n), "remembered assignments", 2)
    # attributes of a shuffler set from outside
    out = []
    for q, f in P.funcs.items():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Attribute) and x.value.attr == "shuffler":
                out.append((f, x))
    R.ob("cached", "attributes of a shuffler are set by its constructor only", not out, "; ".join(f"{f.qual} sets {x.attr}" for f, x in out), out[0][0].where if out else "")
    # nobody changes the lists handed out
    names = {"worker_chunks", "worker_intervals"}
    n = 0
    for q, f in sorted(P.funcs.items()):
        if f.module.name not in MODS:
            continue
        for e, c in events_of(P, q):
            tgt = None
            if e.kind == "call" and e.name in MUTATE and e.recv is not None:
                tgt = e.recv
            elif e.kind in ("setitem", "del") and e.base is not None:
                tgt = e.base
            if tgt is None:
                continue
            t = strip(tgt)
            while t.k in ("mut", "append", "extend", "setitem", "upd", "del"):
                t = strip(t.a[0])
            while t.k == "sub":
                t = strip(t.a[0])
            hit = (t.k == "attr" and t.a[1] in names and e.kind != "del") or (t.k == "call" and fname(t) == "get_chunks_and_intervals_per_workers")
            hit = hit or (t.k == "elem" and mentions_call(t, "get_chunks_and_intervals_per_workers")) or (t.k == "elem" and mentions_attr(t, *names))
            if hit:
                R.ob("cached", f"{short(q)} changes {show(t, 2)[:40]}", False, "the list is shared with the remembered assignment of this epoch", e.where)
            n += 1
    R.ob("cached", "handed out assignments are not modified", True, f"{n} modifications of lists looked at")
