"""C29: a chunk nobody on the machine holds is freed once the cache is full."""
from .common import *
from .c25 import all_loops

RD = "streaming.reader."
TH = RD + "PrepareChunksThread."
IL = "streaming.item_loader."


def check(P, R):
    R.rule("listed", "every chunk the reader gives back is remembered for deletion, and chunks are taken off the list to be deleted as long as the cache is full")
    R.rule("full", "the cache counts as full when the data don't fit (and the prefetch is used up) or when its files take at least the limit; otherwise chunks are kept")
    R.rule("removed", "a chunk without holds is removed with all the loader keeps of it, whichever loader it is; the count file of a chunk goes with the last hold")
    R.rule("size", "the size of the cache is the sum over its chunk files, known ones by the index and partial ones by their size on disk")
    R.rule("limit", "the limit given by the user reaches the reader, converted by its unit")
    R.part(P, listed, full, removed, size, limit)


def listed(P, R):
    f = P.func(TH + "_maybe_delete_chunks")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"_apply_delete", "_can_delete_chunk", "_get_from_queue"}, policy=lambda a, b, d: d < 4 and b.cls is f.cls)
    evs = list(flow.walk(seq))
    got = [e for e, c in evs if e.kind == "call" and e.name == "_get_from_queue" and e.args and mentions_attr(e.args[0], "_to_delete_queue")]
    got += [e for e, c in evs if e.kind == "call" and e.name in ("get", "get_nowait") and e.recv is not None and mentions_attr(e.recv, "_to_delete_queue")]
    need(got, "released chunks taken from the queue")
    val = strip(got[0].term)

    def atom(x):  # a chunk was given back
        if x.k == "is" and NONE in x.a and any(strip(y) is val for y in x.a):
            return False
        return None

    def step(st, e):
        if e.kind == "call" and e.name in ("append", "extend", "insert", "add", "appendleft", "put") and e.recv is not None and any(mentions(a, lambda y: strip(y) is val) for a in e.args):
            return ["kept"]
        if e.kind == "call" and e.name == "_apply_delete" and e.args and strip(e.args[0]) is val:
            return ["kept"]
        return [st]

    out = flow.Typestate(step, under(atom)).run(seq, ["lost"])
    ends = {s for k in ("norm", "ret") for s, *_ in out[k]}
    R.ob("listed", "a released chunk is remembered", None if not ends else ends == {"kept"}, str(sorted(ends)), f.where)
    dels = [(e, c) for e, c in evs if e.kind == "call" and e.name == "_apply_delete"]
    R.must("listed", "chunks are deleted", dels, "", f.where)
    for e, c in dels:
        lits = [l for g in c.guards for l in tm.literals(g)] + [l for lp in c.loops if lp.cond is not None for l in tm.literals(lp.cond)]
        pos = [l for l in lits if mentions_call(l, "_can_delete_chunk") and strip(l).k != "not"]
        neg = [l for l in lits if mentions_call(l, "_can_delete_chunk") and strip(l).k == "not"]
        R.ob("listed", "deleted when full", bool(pos) and not neg if (pos or neg) else None, guards_str(c)[-200:], e.where)
        R.ob("listed", "deleted as long as the cache is full", bool(c.loops) or None, "once per released chunk only", e.where)
        few = [l for l in lits if any(x.k == "call" and fname(x) == "len" and mentions_attr(before_loops(seq, x), "_chunks_index_to_be_deleted") for x in subterms(l))]
        for l in few:
            one = tm.subst(strip(before_loops(seq, l)), {x: ONE for x in subterms(before_loops(seq, l)) if x.k == "call" and fname(x) == "len"})
            if strip(one) is FALSE:
                R.ob("listed", "deleted down to the last released chunk", False, show(l, 5), e.where)
        emp = [l for l in lits if root_attr(strip(l)) == "_chunks_index_to_be_deleted" or (strip(l).k == "not" and root_attr(strip(strip(l).a[0])) == "_chunks_index_to_be_deleted")]
        R.ob("listed", "deleted from a list that isn't empty", not any(strip(l).k == "not" for l in emp), guards_str(c)[-200:], e.where)
    # nobody else empties the list
    for q, m in sorted(P.funcs.items()):
        if m.cls is not f.cls or m is f:
            continue
        for e, c in own_events(P, m):
            bad = (e.kind == "store" and e.attr == "_chunks_index_to_be_deleted" and m.name != "__init__") or (
                e.kind == "call" and e.name in ("clear", "pop", "remove") and e.recv is not None and root_attr(strip(e.recv)) == "_chunks_index_to_be_deleted")
            if bad and not called_from(P, m, "_maybe_delete_chunks"):
                R.ob("listed", f"{m.name} changes the list of chunks to be deleted", False, repr(e)[:150], e.where)


def called_from(P, m, name):
    return any(g.name == name for g, n in call_sites(P, m.name))


def outer(x, num):
    m = {z: v for z, v in ((z, num(z)) for z in subterms(x)) if v is not None}
    return {z: v for z, v in m.items() if not any(o is not z and contains(o, z) for o in m)}


def full(P, R):
    f = P.func(TH + "_can_delete_chunk")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"_get_folder_size"}, policy=lambda a, b, d: d < 4 and b.cls is f.cls)

    def world(whole, count, used, top=100):
        def num(x):
            if is_attr(x, "_pre_download_counter"):
                return const(count)
            if is_attr(x, "_max_pre_download"):
                return const(4)
            if is_attr(x, "_max_cache_size"):
                return const(top)
            if x.k == "call" and fname(x).split(".")[-1] == "_get_folder_size":
                return const(used)
            return None

        def atom(x):
            if is_attr(x, "_delete_chunks_when_processed"):
                return whole
            if is_attr(x, "_max_cache_size"):
                return top > 0
            if x.k == "is" and NONE in x.a and any(is_attr(y, "_max_cache_size") for y in x.a):
                return False
            if x.k in ("lt", "le", "eq"):
                r = tm.subst(x, outer(x, num))
                return True if r is TRUE else False if r is FALSE else None
            return None
        return atom

    for name, w, want in (("data that don't fit, prefetch used up", world(True, 4, 0), True), ("data that fit, cache over the limit", world(False, 0, 150), True),
                          ("data that fit, cache at the limit", world(False, 4, 100), True), ("data that fit, room left", world(False, 4, 50), False),
                          ("data that don't fit, nothing prefetched", world(True, 0, 0), False)):
        v = truth3(strip(ev.ret), w) if ev.ret is not None else False
        R.ob("full", name, None if v is None else v is want, f"{v} for {show(ev.ret, 6)}", f.where)
    # do the data fit
    f = P.func(TH + "__init__")
    seq, ev = evaluate(P, f, policy=lambda a, b, d: d < 3 and b.cls is f.cls)
    st = [(e, c) for e, c in flow.walk(seq) if e.kind == "store" and e.attr == "_delete_chunks_when_processed"]
    need(st, "test whether the data fit")
    lim = mk("param", "max_cache_size")

    def fits(limit):
        def num(x):
            if x is lim or is_attr(x, "_max_cache_size"):
                return const(limit)
            if is_attr(x, "num_bytes") or x.k == "call" and x.a[0].k == "meth" and x.a[0].a[1] == "num_bytes":
                return const(100)
            if is_attr(x, "num_nodes"):
                return const(2)
            if is_attr(x, "world_size"):
                return const(4)
            if is_attr(x, "global_rank"):
                return const(1)
            if x.k == "call" and fname(x) in ("max", "min") and len(x.a[1]) == 2:
                y = [z if is_const(z) else num(z) for z in map(strip, x.a[1])]
                if all(z is not None and is_const(z) for z in y):
                    w = [int(tm.lin_const(z)) for z in y]
                    return const(max(w) if fname(x) == "max" else min(w))
            if x.k == "op" and str(x.a[0]) in ("FloorDiv", "Div", "//", "/"):
                y = [z if is_const(z) else num(z) for z in map(strip, x.a[1:3])]
                if None not in y and all(is_const(z) for z in y) and tm.lin_const(y[1]) > 0:
                    return const(int(tm.lin_const(y[0]) // tm.lin_const(y[1])))
            return None

        def atom(x):
            if x is lim or is_attr(x, "_max_cache_size"):
                return limit > 0
            if x.k == "is" and NONE in x.a and lim in x.a:
                return False
            if x.k in ("lt", "le", "eq"):
                r = tm.subst(x, outer(x, num))
                return True if r is TRUE else False if r is FALSE else None
            return None
        return atom

    for name, limit, want in (("100 bytes on 2 nodes, limit 30", 30, True), ("100 bytes on 2 nodes, limit 70", 70, False)):
        e, c = ([x for x in st if all(truth3(g, fits(limit)) is not False for g in x[1].guards)] or st)[-1]
        v = truth3(strip(e.value), fits(limit)) if all(truth3(g, fits(limit)) is True for g in c.guards) else None
        R.ob("full", f"data don't fit: {name}", None if v is None else v is want, show(e.value, 6), e.where)
    f = P.func("streaming.config.ChunksConfig.num_bytes")
    seq, ev = evaluate(P, f)
    v = strip(ev.ret)
    ok = v.k == "call" and fname(v) == "sum" and mentions_key(v, "chunk_bytes") and mentions_attr(v, "_chunks")
    R.ob("full", "size of the data", ok or (None if any(x.k == "phi" for x in subterms(v)) else False), show(v, 5), f.where)
    R.ob("full", "size of all the data", not any(x.k == "ite" for x in subterms(v)) if ok else None, show(v, 5), f.where)


def removed(P, R):
    f = P.func(TH + "_apply_delete")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"_remaining_locks", "can_delete"}, policy=lambda a, b, d: d < 4 and b.cls is f.cls)

    def num(x):
        return ZERO if x.k == "call" and (fname(x).split(".")[-1] == "_remaining_locks" or x.a[0].k == "meth" and x.a[0].a[1] == "_remaining_locks") else None

    def atom(x):
        if num(x) is not None:
            return False
        if x.k in ("lt", "le", "eq"):
            m = {z: v for z, v in ((z, num(z)) for z in subterms(x)) if v is not None}
            if m:
                r = tm.subst(x, m)
                return True if r is TRUE else False if r is FALSE else None
        return None

    def step(st, e):
        if e.kind == "call" and e.name == "delete" and e.recv is not None and mentions_attr(e.recv, "_item_loader") or removed_path(e) is not None and not ends_with(removed_path(e), ".lock", ".cnt", ".tmb"):
            return ["gone"]
        return [st]

    out = flow.Typestate(step, under(atom)).run(seq, ["there"])
    ends = {s for k in ("norm", "ret") for s, *_ in out[k]}
    R.ob("removed", "a chunk without holds", None if not ends else ends == {"gone"}, str(sorted(ends)), f.where)
    loaders(P, R)
    counts(P, R)


def loaders(P, R):
    base = P.cls(IL + "BaseItemLoader")
    n = 0
    for c in base.all_subclasses():
        f = c.find("delete")
        if f is None or f.cls is base:
            continue
        n += 1
        seq, ev = evaluate(P, f, opaque={"_get_log_msg"}, self_cls=c, policy=lambda a, b, d: d < 4 and b.cls is not None and c.is_sub(b.cls.name))
        R.unit(f.qual)
        ps = [p for p in f.params if p != "self"]
        key, path = mk("param", ps[0]), mk("param", ps[1])

        def atom(x):
            if x.k == "call" and fname(x) in ("os.path.exists", "os.path.isfile") and x.a[1] and strip(x.a[1][0]) is path:
                return True
            if x.k == "in" and strip(x.a[0]) is key:
                return True
            return None

        kept = {}
        for m in {m.name: m for k in reversed(c.mro()) for m in k.methods.values()}.values():
            if m.name == "__init__":
                continue
            for e, cx in own_events(P, m):
                if e.kind == "setitem" and strip(e.base).k == "attr" and strip(e.base).a[0].k == "self" and strip(e.idx) is mk("param", "chunk_index"):
                    kept[strip(e.base).a[1]] = e

        def step(st, e):
            p = removed_path(e)
            if p is not None and strip(p) is path:
                return [st | {"file"}]
            if e.kind == "del" and e.base is not None:
                b = strip(e.base)
                a = root_attr(b)
                if a:
                    return [st | {a}]
            if e.kind == "call" and e.name in ("pop", "clear") and e.recv is not None and root_attr(strip(e.recv)):
                return [st | {root_attr(strip(e.recv))}]
            if e.kind == "store" and e.base.k == "self":
                return [st | {e.attr}]
            return [st]

        out = flow.Typestate(step, under(atom)).run(seq, [frozenset()])
        ends = [s for k in ("norm", "ret") for s, *_ in out[k]]
        R.ob("removed", f"{c.name}: the file", None if not ends else all("file" in s for s in ends), "a path leaves the file" if ends else "", f.where)
        for a, e in sorted(kept.items()):
            if a in ("_counter", "_chunk_row_group_item_read_count"):
                continue
            R.ob("removed", f"{c.name}: what is kept in {a}", None if not ends else all(a in s for s in ends), "kept of a chunk that is gone", f.where)
    need(range(n), "loaders that delete chunks", 3)


def counts(P, R):
    f = P.func(TH + "_decrement_local_lock")
    seq, ev = evaluate(P, f, policy=lambda a, b, d: d < 4 and b.cls is f.cls)
    R.unit(f.qual)
    evs = list(flow.walk(seq))
    rm = [(e, c) for e, c in evs if removed_path(e) is not None and ends_with(removed_path(e), ".cnt")]
    wr = [(e, c) for e, c in evs if e.kind == "call" and e.name == "write"]
    if not rm:
        R.ob("removed", "count file with the last hold", None if any(removed_path(e) is not None and suffix(removed_path(e), None) is None for e, c in evs if removed_path(e) is not None and not ends_with(removed_path(e), ".lock")) else False, "never removed", f.where)
        return
    for e, c in rm:
        # with one hold left the count is gone, with two it isn't
        res = []
        for held in (1, 2):
            def num(x):
                return const(held) if x.k == "call" and fname(x) == "int" else None

            def atom(x):
                if x.k == "caught":
                    return False
                if x.k in ("lt", "le", "eq"):
                    y = strip(spec(x, atom)) if any(z.k == "ite" for z in subterms(x)) else x
                    r = tm.subst(y, outer(y, num))
                    return True if r is TRUE else False if r is FALSE else None
                return None
            t = [truth3(g, atom) for g in c.guards if mentions_call(g, "int")]
            res.append(False if False in t else None if None in t or not t else True)
        R.ob("removed", "count file with the last hold", None if None in res else res == [True, False], f"removed with one hold: {res[0]}, with two: {res[1]}; {guards_str(c)[-160:]}", e.where)


def size(P, R):
    f = P.func(RD + "_get_folder_size")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    v = strip(ev.ret)
    loops = [lp for lp in all_loops(seq)]
    if v.k != "phi" or not loops:
        R.ob("size", "files of the cache", None, show(v, 4), f.where)
        return
    acc = None
    for lp in loops:
        for nm, (init, nxt) in lp.carried.items():
            if v is strip(mk("phi", lp.lid, nm)) or str(v.a[1]) == nm:
                acc = (lp, nm, strip(init), strip(nxt))
    if acc is None:
        R.ob("size", "files of the cache", None, show(v, 4), f.where)
        return
    lp, nm, init, nxt = acc
    phi = v
    R.ob("size", "starts at nothing", init is ZERO, show(init, 3), f.where)
    R.ob("size", "all entries of the folder", mentions_param(lp.iter, f.params[0]), show(lp.iter, 4), f.where)

    def scen(is_file, known, ignored, chunk):
        def atom(x):
            if x.k in ("caught", "iter"):
                return x.k == "iter"
            if x.k == "call" and x.a[0].k == "meth" and x.a[0].a[1] in ("is_file", "is_dir", "is_symlink"):
                return is_file if x.a[0].a[1] == "is_file" else not is_file
            if x.k == "in" and mentions_attr(x.a[1], "filename_to_size_map"):
                return known
            if x.k == "call" and x.a[0].k == "meth" and x.a[0].a[1] == "endswith":
                return ignored
            if x.k == "in" and is_const(strip(x.a[0])) and ".bin" in str(strip(x.a[0]).a[1]):
                return chunk
            return None
        return atom

    for name, atom, want in (("a known chunk file", scen(True, True, False, True), "map"), ("a file on its way", scen(True, False, False, True), "stat"),
                             ("a folder", scen(False, False, False, False), None), ("a lock file", scen(True, False, True, True), None)):
        d = [tm.sub(strip(x), phi) for _, x in galts(strip(spec(nxt, atom)))]
        if any(any(z is phi for z in subterms(x)) for x in d):
            gone = [x for _, x in galts(strip(spec(nxt, atom))) if not mentions(x, lambda z: strip(z) is phi) and not any(z.k == "maybe" for z in subterms(x))]
            gone = gone or [x for _, x in galts(strip(spec(nxt, atom))) if x.k == "call" and fname(x) in ("max", "min")]
            R.ob("size", name, False if gone else None, "what was summed up before is lost" if gone else show(d[0], 4), f.where)
            continue
        if want == "map":
            ok = all(mentions_attr(x, "filename_to_size_map") for x in d)
        elif want == "stat":
            ok = any(mentions_attr(x, "st_size") for x in d) and all(x is ZERO or mentions_attr(x, "st_size") for x in d)
        else:
            ok = all(x is ZERO for x in d)
        R.ob("size", name, ok, ", ".join(show(x, 4) for x in d), f.where)
    # the sizes the index gives
    f = P.func("streaming.config.ChunksConfig.__init__")
    seq, ev = evaluate(P, f, policy=lambda a, b, d: d < 3 and b.cls is f.cls, opaque={"_without_compression"})
    st = [(e, c) for e, c in flow.walk(seq) if e.kind == "setitem" and mentions_attr(e.base, "filename_to_size_map") or e.kind == "store" and e.attr == "filename_to_size_map"]
    need(st, "sizes of the chunks")
    good = [e for e, c in st if mentions_key(e.value, "chunk_bytes") and mentions_key(e.idx if e.kind == "setitem" else e.value, "filename")]
    R.ob("size", "sizes from the index, by name", bool(good) or (None if any(not is_const(strip(e.value)) and strip(e.value).k not in ("dict", "list") for e, c in st) and not any(mentions_key(e.value, "filename", "chunk_bytes", "chunk_size", "dim") for e, c in st) else False), "; ".join(show(e.value, 4) for e, c in st), st[0][0].where)


def limit(P, R):
    n = wired(P, R, "limit", "max_cache_size")
    need(range(n), "places the limit goes through", 2)
    m = P.modules["litdata.utilities.format"]
    table = None
    for node in m.tree.body:
        if isinstance(node, (ast.Assign, ast.AnnAssign)) and isinstance(node.value, ast.Dict):
            d = {}
            for k, v in zip(node.value.keys, node.value.values):
                try:
                    d[ast.literal_eval(k)] = eval_int(v)
                except (ValueError, TypeError):
                    break
            else:
                if any(str(k).lower() in ("kb", "mb", "gb") for k in d):
                    table = d, node
    if table is None:
        R.ob("limit", "units", None, "no table", m.rel)
    else:
        d, node = table
        low = {str(k).lower().strip(): v for k, v in d.items()}
        for i, u in enumerate(("kb", "mb", "gb", "tb"), 1):
            R.ob("limit", f"unit {u}", low.get(u) in (1000 ** i, 1024 ** i), str(low.get(u)), f"{m.rel}:{node.lineno}")
        R.ob("limit", "units of one kind", len({1000 if str(v).endswith("000") else 1024 for v in low.values()}) == 1, str(low), f"{m.rel}:{node.lineno}")
        ks = list(low)
        R.ob("limit", "no unit hides another", not any(b.endswith(a) and ks.index(a) < ks.index(b) for a in ks for b in ks if a != b), str(ks), f"{m.rel}:{node.lineno}")
    # strings are converted, numbers taken
    f = P.func("utilities.format._convert_bytes_to_int")
    seq, ev = evaluate(P, f)
    R.unit(f.qual)
    rets = [(e, c) for e, c in flow.walk(seq) if e.kind == "return" and e.value is not None and strip(e.value) is not NONE]
    need(rets, "converted sizes")
    for e, c in rets:
        v = strip(e.value)
        num = [x for x in subterms(v) if x.k == "call" and fname(x) == "float"]
        ok = bool(num) and mentions(v, lambda x: x.k == "sub" and (x.a[0].k in ("glob", "dict", "ext", "modvar") or "RATIO" in show(x.a[0], 3)) or x.k == "elem")
        R.ob("limit", "number times unit", ok or None, show(v, 6), e.where)
        guard = [l for g in c.guards for l in tm.literals(g) if mentions(l, lambda x: x.k == "call" and x.a[0].k == "meth" and x.a[0].a[1] in ("endswith", "removesuffix"))]
        R.ob("limit", "unit found at the end", bool(guard) and not any(strip(l).k == "not" for l in guard) if guard else None, guards_str(c), e.where)
    for q, attr in (("streaming.cache.Cache.__init__", "max_cache_size"),):
        f = P.func(q)
        for e, c in own_events(P, f):
            a = e.kw.get(attr) if e.kind == "call" else None
            if a is None:
                continue
            isin = lambda yes: (lambda x: yes if x.k == "isinst" and strip(x.a[0]) is mk("param", attr) else None)
            sv, nv = strip(spec(a, isin(True))), strip(spec(a, isin(False)))
            R.ob("limit", "text is converted", (mentions_call(sv, "_convert_bytes_to_int") and mentions_param(sv, attr)) if sv is not nv else (None if mentions_call(sv, "_convert_bytes_to_int") else False), show(sv, 4), e.where)
            R.ob("limit", "a number is taken as it is", nv is mk("param", attr) or (None if mentions_param(nv, attr) else False), show(nv, 4), e.where)


def eval_int(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
        return n.value
    if isinstance(n, ast.BinOp):
        a, b = eval_int(n.left), eval_int(n.right)
        op = type(n.op)
        if op is ast.Pow and b < 20:
            return a ** b
        if op is ast.Mult:
            return a * b
        if op is ast.LShift and b < 100:
            return a << b
    raise ValueError
