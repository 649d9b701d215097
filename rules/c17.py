"""C17: an existing dataset is never overwritten without being asked."""
from .common import *
from .c14 import is_rank

RS = "streaming.resolver."
FN = "processing.functions."
UT = "processing.utilities."
DP = "processing.data_processor."
FS = "streaming.fs_provider."


def check(P, R):
    R.rule("checked-first", "optimize looks at the output location, with the mode given by the user, before any worker or index is made; map does so when told to")
    R.rule("refused", "a location that holds a dataset is refused without a mode, and a location that holds anything is refused when it has to be empty")
    R.rule("removed-when-asked", "a dataset is removed in overwrite mode only; without a mode only chunks without an index and checkpoints are, and none when resuming")
    R.rule("index-first", "the index is removed before the chunks it names")
    R.rule("once", "an output location shared by several nodes is cleared by one of them")
    R.rule("errors", "failing to look for a dataset is not taken for its absence")
    R.rule("remover", "nothing else removes from an output location")
    R.rule("append-number", "in append mode the chunks of a worker are numbered after every existing chunk with its rank")
    R.rule("append-wired", "the first free number of each worker reaches its writer")
    R.rule("merged-apart", "datasets are merged into a location without a dataset only")
    R.rule("empty", "a provider calls a location empty when it lists nothing in it, and a file existing when it finds it")
    R.part(P, index_check, empty_check, first, errors, removers, numbering, wiring, merged, providers)


# ------------------------------------------------------------------ truth of a condition in a scenario
def truth(t, sc):
    """sc: {'mode': None|'append'|'overwrite', 'index': bool, 'ckpt': bool}"""
    t = strip(t)
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if t.k == "not":
        v = truth(t.a[0], sc)
        return None if v is None else not v
    if t.k in ("and", "or"):
        vs = [truth(x, sc) for x in t.a[0]]
        stop = t.k == "or"
        if stop in vs:
            return stop
        return None if None in vs else not stop
    if t.k == "ite":
        c = truth(t.a[0], sc)
        if c is None:
            a, b = truth(t.a[1], sc), truth(t.a[2], sc)
            return a if a == b else None
        return truth(t.a[1] if c else t.a[2], sc)
    if t.k in ("eq", "is") and len(t.a) == 2:
        for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
            x, y = strip(x), strip(y)
            if x.k == "param" and x.a[0] == "mode" and "mode" in sc:
                if y is NONE:
                    return sc["mode"] is None
                if y.k == "const" and y.a[0] == "str":
                    return sc["mode"] == eval_str(y)
        return None
    if t.k == "in" and strip(t.a[0]).k == "param" and strip(t.a[0]).a[0] == "mode" and "mode" in sc:
        c = strip(t.a[1])
        if c.k in ("list", "tuple", "set"):
            return any((x is NONE and sc["mode"] is None) or (x.k == "const" and x.a[0] == "str" and eval_str(x) == sc["mode"]) for x in c.a[0])
        return None
    if t.k == "param":
        if t.a[0] == "mode" and "mode" in sc:
            return sc["mode"] is not None
        if t.a[0] == "use_checkpoint" and "ckpt" in sc:
            return sc["ckpt"]
        if t.a[0] in sc:
            return sc[t.a[0]]
    if t.k == "call":
        n = fname(t).split(".")[-1] if t.a[0].k != "meth" else t.a[0].a[1]
        args = t.a[1]
        if n in ("exists", "isfile", "is_file") and "index" in sc:
            what = args[0] if args else (t.a[0].a[0] if t.a[0].k == "meth" else None)
            if what is not None and ends_with(what, "index.json"):
                return sc["index"]
            if what is not None and sc["index"] and mentions_attr(what, "path") and not ends_with(what, ".checkpoints", ".checkpoints/"):
                return True
        if n == "is_empty" and sc.get("index"):
            return False
        if n == "isdir" and sc.get("index"):
            return True
    return None


def removal(e):
    """what an event removes from the location"""
    p = removed_path(e)
    if p is None and e.kind == "call" and e.name == "delete_file_or_directory" and e.args:
        p = e.args[0]
    return p


def kind_of(p):
    p = strip(p)
    if ends_with(p, "index.json"):
        return "index"
    if ends_with(p, ".checkpoints", ".checkpoints/"):
        return "checkpoints"
    if mentions(p, lambda x: x.k == "elem") and mentions_call(p, "listdir", "glob", "iterdir", "scandir"):
        return "files"
    return "all"


def run_scenario(seq, sc, only=None):
    """(removals with the literals they are under, ways to end)"""
    rem = []

    def step(st, e):
        p = removal(e)
        if p is not None:
            rem.append((e, kind_of(p), st))
            return [st | {kind_of(p)}]
        return [st]

    def assume(st, cond):
        return None if truth(cond, sc) is False else st

    out = flow.Typestate(step, assume).run(seq, [frozenset()])
    return rem, out


def index_check(P, R):
    f = P.func(RS + "_assert_dir_has_index_file")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    ctx = {id(e): c for e, c in flow.walk(seq)}
    allrem = [e for e, c in flow.walk(seq) if removal(e) is not None]
    need(allrem, "removals", 2)
    # a dataset is there, no mode
    for ckpt in (False, True):
        rem, out = run_scenario(seq, {"mode": None, "index": True, "ckpt": ckpt})
        how = " when resuming" if ckpt else ""
        R.ob("removed-when-asked", f"a dataset without a mode{how}", not rem, "removed: " + ", ".join(sorted({k for _, k, _ in rem})), rem[0][0].where if rem else f.where)
        ok = not (out["norm"] | out["ret"])
        R.ob("refused", f"a dataset without a mode{how}", ok, "the location is accepted although it holds an index", f.where)
        rem, out = run_scenario(seq, {"mode": None, "index": False, "ckpt": ckpt})
        if ckpt:
            R.ob("removed-when-asked", "an interrupted run that is resumed", not rem, "removed: " + ", ".join(sorted({k for _, k, _ in rem})), rem[0][0].where if rem else f.where)
            R.ob("refused", "an interrupted run that is resumed", bool(out["norm"] | out["ret"]), "refused", f.where)
        else:
            for e, k, _ in {id(x[0]): x for x in rem}.values():
                lits = [l for g in ctx[id(e)].guards for l in tm.literals(strip(g))]
                p0 = strip(removal(e))
                src = strip(p0.a[0]) if p0.k == "elem" else p0
                if src.k == "comp":
                    lits += [strip(l) for _, cond in src.a[2] if cond is not None for l in tm.literals(strip(cond))]
                only_chunks = k == "checkpoints" or (k == "files" and any(mentions_call(l, "endswith", "fnmatch") and l.k != "not" and mentions(l, lambda x: x.k == "const" and ".bin" in str(x.a[1])) for l in lits)) or k == "index"
                R.ob("removed-when-asked", f"without a mode: {k}", only_chunks, f"removes {show(removal(e), 4)}, which may be anything", e.where)
    for idx in (True, False):
        for ckpt in (False, True):
            rem, out = run_scenario(seq, {"mode": "append", "index": idx, "ckpt": ckpt})
            R.ob("removed-when-asked", "append mode", not rem, "removed: " + ", ".join(sorted({k for _, k, _ in rem})), rem[0][0].where if rem else f.where)
            R.ob("refused", "append mode is accepted", bool(out["norm"] | out["ret"]), "", f.where)
    rem, out = run_scenario(seq, {"mode": "overwrite", "index": True, "ckpt": False})
    ends = {s for s, _ in out["norm"] | out["ret"]}
    R.ob("removed-when-asked", "overwrite mode removes the index", bool(ends) and all(s & {"index", "all"} for s in ends), str([sorted(s) for s in ends]), f.where)
    late = [e for e, k, s in rem if k == "index" and s & {"files"}]
    R.ob("index-first", "local directory", not late, "chunks are removed while the index still names them", late[0].where if late else f.where)
    for e in allrem:
        c = ctx[id(e)]
        one_node = any(mentions(g, is_rank) for g in c.guards)
        R.ob("once", "_assert_dir_has_index_file", one_node, f"removes {show(removal(e), 3)} on every node", e.where)
    # a mode that is neither is an error
    rem, out = run_scenario(seq, {"mode": "something", "index": True, "ckpt": False})
    R.ob("refused", "an unknown mode", not (out["norm"] | out["ret"]) and not rem, "", f.where)


def empty_check(P, R):
    f = P.func(RS + "_assert_dir_is_empty")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)

    def assume_for(remote):
        def tr(t):
            t = strip(t)
            if t.k == "not":
                v = tr(t.a[0])
                return None if v is None else not v
            if t.k in ("and", "or"):
                vs = [tr(x) for x in t.a[0]]
                stop = t.k == "or"
                return stop if stop in vs else (None if None in vs else not stop)
            if t.k == "ite":
                c = tr(t.a[0])
                return None if c is None else tr(t.a[1] if c else t.a[2])
            if t.k == "is" and NONE in t.a:
                x = strip(t.a[0] if t.a[1] is NONE else t.a[1])
                if x.k == "attr" and x.a[1] == "url":
                    return not remote
                if x.k == "attr" and x.a[1] == "path":
                    return False
            if t.k == "attr" and t.a[1] == "url":
                return remote
            if t.k == "attr" and t.a[1] == "path":
                return True
            if t.k == "call":
                n = t.a[0].a[1] if t.a[0].k == "meth" else fname(t).split(".")[-1]
                if n == "is_empty":
                    return False
                if n == "exists" and remote and not mentions_attr(strip(t.a[1][0]) if t.a[1] else t, "path"):
                    return None  # a directory of an object store isn't an object
                if n in ("exists", "isdir", "listdir", "is_dir", "iterdir", "any", "scandir"):
                    return True
                if n in ("len",):
                    return True
            if t.k in ("eq", "lt", "le") and mentions_call(t, "listdir") and t.k == "eq" and ZERO in t.a:
                return False
            return None
        return tr

    for remote in (False, True):
        tr = assume_for(remote)
        out = flow.Typestate(lambda st, e: [st], lambda st, cond: None if tr(cond) is False else st).run(seq, [0])
        ok = not (out["norm"] | out["ret"])
        R.ob("refused", f"a {'remote' if remote else 'local'} location that has to be empty", ok, "a location that isn't empty is accepted", f.where)


def first(P, R):
    for name, guard, conds in (("optimize", "_assert_dir_has_index_file", {}), ("map", "_assert_dir_is_empty", {"error_when_not_empty": True})):
        f = P.func(FN + name)
        R.unit(f.qual)
        seq, ev = evaluate(P, f, opaque={guard, "_assert_dir_has_index_file", "_assert_dir_is_empty", "read_index_file_content", "_resolve_dir", "_get_input_dir", "_get_work_dir",
                                         "_get_default_num_workers", "extract_rank_and_index_from_filename", "_get_node_rank", "_check_version_and_prompt_upgrade", "_execute"})
        g = P.func(RS + guard)
        calls, made = [], []

        def is_guard(e):
            return e.kind == "call" and (e.callee or "").endswith(guard)

        def is_run(e):
            return e.kind == "call" and ((e.callee or "").endswith("DataProcessor") or (e.callee or "").endswith("read_index_file_content") or e.name == "run")

        bad = []

        def step(st, e):
            if is_guard(e):
                calls.append(e)
                return [True]
            if is_run(e):
                made.append(e)
                if not st:
                    bad.append(e)
            return [st]

        flow.Typestate(step, lambda st, cond: None if truth(cond, conds) is False else st).run(seq, [False])
        need(made, f"run of {name}")
        R.ob("checked-first", name, not bad, "the output location is used before it was looked at", bad[0].where if bad else f.where)
        outs = [passed(e, P.cls(DP + "DataProcessor").find("__init__")).get("output_dir") for e in made if (e.callee or "").endswith("DataProcessor")]
        for e in {id(x): x for x in calls}.values():
            a = passed(e, g)
            if a is None:
                continue
            d = a.get("output_dir")
            R.ob("checked-first", f"{name}: the location written to", d is not None and all(strip(d) is strip(o) for o in outs if o is not None), show(d, 3) if d is not None else "", e.where)
            if name == "optimize":
                for p in ("mode", "use_checkpoint"):
                    v = a.get(p)
                    R.ob("checked-first", f"{name}: {p}", v is not None and strip(v).k == "param" and strip(v).a[0] == p, show(v, 3) if v is not None else "not passed", e.where)


def errors(P, R):
    for q in (UT + "read_index_file_content", RS + "_assert_dir_has_index_file", RS + "_assert_dir_is_empty"):
        f = P.func(q)
        R.unit(f.qual)
        hs = handlers_in(P, f)
        for t, h in hs:
            names = handler_names(h)
            broad = any(n in ("Exception", "BaseException", "OSError", "ClientError") for n in names)
            ends = any(isinstance(x, ast.Raise) for x in h.body)
            R.ob("errors", f"{f.name}: {', '.join(names)}", ends or (False if broad else None), "the error is taken for the absence of a dataset", f"{f.module.relpath}:{h.lineno}" if hasattr(f.module, "relpath") else f.where)
        R.ob("errors", f"{f.name}", True, f"{len(hs)} handlers", f.where)
    f = P.func(UT + "read_index_file_content")
    seq, ev = evaluate(P, f)
    for e, c in flow.walk(seq):
        if e.kind == "return" and strip(e.value) is NONE:
            lits = [strip(l) for g in c.guards for l in tm.literals(strip(g))]
            ok = any(l.k == "not" and strip(l.a[0]).k == "call" and mentions_call(l, "exists", "isfile") and mentions(l, lambda x: x.k == "const" and "index.json" in str(x.a[1])) for l in lits) or \
                any(l.k == "is" and NONE in l.a and mentions_attr(l, "path") for l in lits) or any(l.k == "not" and strip(l.a[0]).k == "attr" and strip(l.a[0]).a[1] == "path" for l in lits)
            R.ob("errors", "read_index_file_content: no index", ok, "no index is reported under " + guards_str(c)[-160:], e.where)


ALLOWED = {"litdata." + RS + "_assert_dir_has_index_file", "litdata." + DP + "DataProcessor._cleanup_checkpoints"}


def is_output(t):
    return mentions(t, lambda x: (x.k == "param" and x.a[0] in ("output_dir", "_output_dir")) or (x.k == "attr" and x.a[1] in ("output_dir", "_output_dir")))


def removers(P, R):
    n = 0
    for q, f in sorted(P.funcs.items()):
        for e, c in own_events(P, f):
            p = removal(e)
            if p is None:
                continue
            if e.name == "delete_file_or_directory" or is_output(strip(p)):
                n += 1
                ok = q in ALLOWED or only_called_from(P, f, ALLOWED)
                R.ob("remover", f"{f.qual}: {show(p, 3)[:60]}", ok, f"removes {show(p, 4)}", e.where)
    need(range(n), "removals from output locations", 4)


def only_called_from(P, f, allowed, depth=3):
    """a helper all whose callers are among the allowed ones"""
    callers = set()
    for q, g in P.funcs.items():
        for e, c in own_events(P, g):
            if e.kind == "call" and (e.callee or "").endswith(f.name) and (e.name == f.name or (e.callee or "").split(".")[-1] == f.name):
                callers.add(q)
    return bool(callers) and all(q in allowed or (depth and only_called_from(P, P.funcs[q], allowed, depth - 1)) for q in callers)


def numbering(P, R):
    f = P.func(FN + "optimize")
    seq, ev = evaluate(P, f, opaque={"_assert_dir_has_index_file", "read_index_file_content", "_resolve_dir", "_get_input_dir", "_get_work_dir", "_get_default_num_workers",
                                     "extract_rank_and_index_from_filename", "_get_node_rank", "_check_version_and_prompt_upgrade", "_execute"})
    n = 0
    src = "extract_rank_and_index_from_filename"
    sets = [(e, c) for e, c in flow.walk(seq) if e.kind == "setitem" and mentions_call(e.value, src)]
    need(sets, "first free numbers")
    for e, c in sets:
        v, k = strip(e.value), strip(e.idx)

        def part(i):
            xs = [x for x in subterms(v if i else k) if x.k == "sub" and strip(x.a[1]) is const(i) and strip(x.a[0]).k == "call" and fname(strip(x.a[0])).endswith(src)]
            return xs[0] if xs else None

        rank, index = part(0), part(1)
        R.ob("append-number", "by the rank in the name", rank is not None, show(k, 4), e.where)
        if index is None:
            R.ob("append-number", "after the index in the name", False, show(v, 4), e.where)
            continue
        nx = tm.sub(v, index)
        if is_const(nx) or tm.is_num(nx):
            R.ob("append-number", "after the index in the name", float(nx.a[1]) >= 1, f"the next chunk is given number {show(v, 4)}", e.where)
            # only when it is higher than what is known
            lits = [strip(l) for g in c.guards for l in tm.literals(strip(g))]
            old = mk("sub", e.base, e.idx, 0)
            cmp = [l for l in lits if l.k in ("le", "lt") and mentions(l, lambda x: strip(x) is index) ]
            good = False
            for l in cmp:
                olds = [x for x in subterms(l) if x.k == "sub" and strip(x) is not index and not mentions_call(x, "_get_node_rank") or (x.k == "sub" and strip(x.a[1]) is k)]
                for o in olds:
                    if strip(o) is index:
                        continue
                    good = good or implies_ge(l, index, o) or implies_ge(l, index, o, 1)
            R.ob("append-number", "the highest number wins", good if cmp else False, guards_str(c)[-200:], e.where)
            other = [l for l in lits if mentions_call(l, src) and l not in cmp]
            for l in other:
                R.ob("append-number", "every chunk of the worker counts", (l.k in ("le", "lt") and not mentions(l, lambda x: strip(x) is index)) or (l.k == "in" and not mentions(l, lambda x: strip(x) is index)) or None, show(l, 5), e.where)
        elif v.k in ("max",) or (v.k == "call" and fname(v) == "max"):
            args = v.a[1]
            ok = any((tm.is_num(tm.sub(strip(a), index)) and float(tm.sub(strip(a), index).a[1]) >= 1) for a in args) and len(args) == 2
            R.ob("append-number", "after the index in the name", ok, show(v, 4), e.where)
        else:
            R.ob("append-number", "after the index in the name", None if v.k in ("ite", "phi") else False, show(v, 4), e.where)
        # every chunk of the existing index is looked at
        loops = [l for l in c.loops if l.iter is not None and mentions_key(strip(l.iter), "chunks")]
        R.ob("append-number", "every existing chunk", bool(loops) and not mentions(strip(loops[-1].iter), lambda x: x.k == "slice"), show(loops[-1].iter, 3) if loops else "", e.where)
    # the name taken apart is the one given
    g = P.func(UT + src)
    R.unit(g.qual)
    s2, ev2 = evaluate(P, g)
    h = P.func("streaming.writer.BinaryWriter.get_chunk_filename")
    R.unit(h.qual)
    s3, ev3 = evaluate(P, h)
    names = [strip(v) for _, v in galts(ev3.ret)]
    sl = [strip(x.a[1]) for x in subterms(strip(ev2.ret)) if x.k == "sub" and strip(x.a[1]).k == "slice"]
    for nm in names:
        if nm.k != "cat":
            R.ob("append-number", "name of a chunk", None, show(nm, 4), h.where)
            continue
        ps = [strip(x) for x in nm.a[0]]
        pre, suf = ps[0], ps[-1]
        mid = [x for x in ps if x is const("-")]
        ok = pre.k == "const" and eval_str(pre) == "chunk-" and suf.k == "const" and eval_str(suf).endswith(".bin") and len(mid) == 1
        R.ob("append-number", "name of a chunk", ok or None, show(nm, 4), h.where)
    for s in sl:
        lo, hi = strip(s.a[0]), strip(s.a[1])
        if is_const(lo) and is_const(hi) or (tm.is_num(lo) and tm.is_num(hi)):
            R.ob("append-number", "the name is taken apart as it was made", float(lo.a[1]) == 6 and float(hi.a[1]) == -4, show(s, 3), g.where)
    r = [strip(v) for _, v in galts(ev2.ret)]
    for t in r:
        if t.k == "tuple" and len(t.a[0]) == 2:
            def pos(x):
                ks = {float(y.a[1].a[1]) for y in subterms(strip(x)) if y.k == "sub" and tm.is_num(strip(y.a[1])) and strip(y.a[0]).k == "call" and mentions(strip(y.a[0]), lambda z: z is const("-"))}
                return ks
            a, b = pos(t.a[0][0]), pos(t.a[0][1])
            if a and b:
                R.ob("append-number", "rank, then number", 0.0 in a and 1.0 not in a and 1.0 in b, f"{show(t, 4)}", g.where)


def wiring(P, R):
    f = P.func(FN + "optimize")
    init = P.cls(DP + "DataProcessor").find("__init__")
    dp = [(e, c) for e, c in own_events(P, f) if e.kind == "call" and (e.callee or "").endswith("DataProcessor")]
    need(dp, "processor made by optimize")
    for e, c in dp:
        v = (passed(e, init) or {}).get("state_dict")
        R.ob("append-wired", "optimize -> DataProcessor", v is not None and (mentions_call(v, "fromkeys", "range", "extract_rank_and_index_from_filename") or root_attr(strip(v)) is not None or v.k in ("phi", "setitem", "ite")), show(v, 3) if v is not None else "not passed", e.where)
    st = [e for e, c in own_events(P, init) if e.kind == "store" and e.attr == "state_dict"]
    need(st, "numbers kept by the processor")
    for e in st:
        ok = any(strip(v).k == "param" and strip(v).a[0] == "state_dict" for _, v in galts(e.value)) or mentions_param(e.value, "state_dict")
        R.ob("append-wired", "DataProcessor keeps them", ok, show(e.value, 4), e.where)
    g = P.func(DP + "DataProcessor._create_process_workers")
    binit = P.cls(DP + "BaseWorker").find("__init__")
    for e, c in own_events(P, g):
        if e.kind == "call" and (e.callee or "").endswith("DataWorkerProcess"):
            a = passed(e, binit)
            if a is None:
                continue
            v = strip(a.get("writer_starting_chunk_index")) if a.get("writer_starting_chunk_index") is not None else None
            i = strip(a.get("worker_index"))
            ok = v is not None and v.k == "sub" and root_attr(strip(v.a[0])) == "state_dict" and peel(strip(v.a[1])) is peel(i)
            R.ob("append-wired", "DataProcessor -> worker", ok, show(v, 3) if v is not None else "not passed", e.where)
    chain = [(DP + "BaseWorker._create_cache", "streaming.cache.Cache", "writer_chunk_index", lambda v: v.k == "attr" and v.a[1] == "writer_starting_chunk_index"),
             ("streaming.cache.Cache.__init__", "streaming.writer.BinaryWriter", "chunk_index", lambda v: mentions_param(v, "writer_chunk_index"))]
    for q, cls, pname, ok in chain:
        h = P.func(q)
        ci = P.cls(cls).find("__init__")
        es = [e for e, c in own_events(P, h) if e.kind == "call" and (e.callee or "").endswith(cls.split(".")[-1])]
        need(es, f"{cls} made by {q}")
        for e in es:
            v = (passed(e, ci) or {}).get(pname)
            R.ob("append-wired", f"{h.name} -> {cls.split('.')[-1]}", v is not None and bool(ok(strip(v))), show(v, 3) if v is not None else "not passed", e.where)
    for cls, attr, pname in ((DP + "BaseWorker", "writer_starting_chunk_index", "writer_starting_chunk_index"), ("streaming.writer.BinaryWriter", "_chunk_index", "chunk_index")):
        ci = P.cls(cls).find("__init__")
        es = [e for e, c in own_events(P, ci) if e.kind == "store" and e.attr == attr]
        need(es, f"{attr} kept by {cls}")
        for e in es:
            R.ob("append-wired", f"{cls.split('.')[-1]} keeps it", mentions_param(e.value, pname), show(e.value, 3), e.where)


def merged(P, R):
    f = P.func(FN + "merge_datasets")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"read_index_file_content", "_resolve_dir", "_apply_copy", "_save_index"})
    reads = [e for e, c in flow.walk(seq) if e.kind == "call" and (e.callee or "").endswith("read_index_file_content")]
    saves = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and (e.callee or "").endswith("_save_index")]
    copies = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and (any((strip(a).k in ("fn", "glob") and "_apply_copy" in show(a)) for a in e.args) or (e.callee or "").endswith("_apply_copy"))]
    need(saves, "index saved by merge_datasets")
    need(copies, "chunks copied by merge_datasets")
    for what, xs in (("index", saves), ("chunks", copies)):
        for e, c in xs:
            lits = [strip(l) for g in c.guards for l in tm.literals(strip(g))]
            dest = strip(saves[0][0].args[1]) if len(saves[0][0].args) > 1 else None
            def absent(l):
                x = None
                if l.k == "is" and NONE in l.a:
                    x = strip(l.a[0] if strip(l.a[1]) is NONE else l.a[1])
                elif l.k == "not":
                    x = strip(l.a[0])
                return x is not None and x.k == "call" and fname(x).endswith("read_index_file_content") and x.a[1] and (dest is None or strip(x.a[1][0]) is dest)
            R.ob("merged-apart", what, any(absent(l) for l in lits), "written although the output may hold a dataset", e.where)


def resolved(P, f, e, body, depth=4):
    """the text of an expression and of what its local names and helpers stand for"""
    out = ast.unparse(e)
    for x in ast.walk(e):
        if isinstance(x, ast.Name):
            for v in f.module.consts.get(x.id, []):
                out += " " + ast.unparse(v)
        if isinstance(x, ast.Call):
            name = x.func.id if isinstance(x.func, ast.Name) else getattr(x.func, "attr", None)
            for g in P.helpers_named(name):
                out += " " + ast.unparse(g.node)
    names = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
    if depth:
        for y in ast.walk(ast.Module(body=body, type_ignores=[])):
            if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id in names for t in y.targets):
                out += " " + resolved(P, f, y.value, body, depth - 1)
    return out


def providers(P, R):
    base = P.cls(FS + "FsProvider")
    for c in base.all_subclasses():
        f = c.methods.get("exists")
        if f is not None:
            R.unit(f.qual)
            seq, ev = evaluate(P, f)
            for t, h in handlers_in(P, f):
                for x in ast.walk(ast.Module(body=h.body, type_ignores=[])):
                    if isinstance(x, ast.Return):
                        # an error may only mean absence when it says so
                        texts = []
                        for y in ast.walk(ast.Module(body=h.body, type_ignores=[])):
                            if isinstance(y, ast.If) and (any(z is x for z in ast.walk(y)) or (y.lineno < x.lineno and any(isinstance(z, ast.Raise) for z in ast.walk(y)))):
                                texts.append(resolved(P, f, y.test, h.body))
                        ok = any(w in t for t in texts for w in ("Not Found", "404", "NoSuchKey", "NotFound"))
                        if isinstance(x.value, ast.Constant) and x.value.value is True:
                            ok = False
                        R.ob("empty", f"{c.name}.exists: {', '.join(handler_names(h))}", ok, "any error is taken for absence", f"{f.module.relpath}:{x.lineno}" if hasattr(f.module, "relpath") else f.where)
                if not any(isinstance(x, (ast.Raise, ast.Return)) for x in ast.walk(ast.Module(body=h.body, type_ignores=[]))):
                    R.ob("empty", f"{c.name}.exists: {', '.join(handler_names(h))}", False, "the error is dropped", f.where)
            for g, v in galts(ev.ret):
                v = strip(v)
                ok = v in (TRUE, FALSE) or (v.k == "call" and mentions_call(v, "exists"))
                if v.k == "not":
                    ok = False
                R.ob("empty", f"{c.name}.exists", ok or None if v.k != "not" else False, show(v, 3), f.where)
        f = c.methods.get("is_empty")
        if f is not None:
            R.unit(f.qual)
            seq, ev = evaluate(P, f)
            for g, v in galts(ev.ret):
                R.ob("empty", f"{c.name}.is_empty", polarity(strip(v)), show(v, 4), f.where)


def polarity(v):
    """True when v says that nothing was listed"""
    neg = False
    while v.k == "not":
        neg, v = not neg, strip(v.a[0])
    if v.k == "call":
        n = fname(v).split(".")[-1]
        if n == "any":
            return neg
        if n == "len":
            return neg
        return None
    if v.k == "eq" and ZERO in v.a:
        return not neg
    if v.k in ("lt", "le"):
        counts = [x for x in subterms(v) if x.k == "sub" and strip(x.a[1]) is const("KeyCount") or (x.k == "call" and fname(x) == "len")]
        if len(counts) == 1:
            r0 = implies_ge(v, counts[0], ONE)  # v says there is something
            r1 = implies_ge(not_(v), counts[0], ONE)
            if r0 and not r1:
                return neg and bool(implies_ge(not_(v), ZERO, counts[0]))
            if r1 and not r0:
                return not neg and bool(implies_ge(v, ZERO, counts[0]))
        return None
    if v.k == "in":
        return neg if strip(v.a[0]) is const("Contents") else None
    if v in (TRUE, FALSE):
        return False
    return None
