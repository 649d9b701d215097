"""C03: a writer neither loses, duplicates nor misnumbers samples: items -> chunk -> index entry -> file."""
from .common import *

W = "streaming.writer.BinaryWriter."


def check(P, R):
    R.rule("one-chunk-one-entry", "writing a chunk writes one file, records one index entry and advances the chunk number once, by 1")
    R.rule("same-name", "the file and its index entry carry the same name, derived from the rank and the chunk number")
    R.rule("name-unique", "two different (rank, chunk number) pairs cannot produce the same chunk name")
    R.rule("entry-true", "the index entry states the byte size of the chunk before compression and its number of samples")
    R.rule("moved-not-copied", "the samples of a chunk are taken out of the pending set as they are written")
    R.rule("no-overwrite", "adding an already pending index raises instead of replacing the sample")
    R.rule("flush-before-index", "done() writes every pending sample before writing the index, and always writes the index")
    R.rule("index-content", "the worker index contains every recorded chunk and the configuration")
    R.rule("capacity", "the sample that would overflow the chunk is left for the next one")
    R.rule("format-fixed", "once the data format is known a sample with a different number of leaves is rejected, not truncated")
    R.rule("structure-fixed", "a sample whose structure (keys, their order, nesting) differs from the recorded one is rejected")

    # --- write_chunk
    f = P.func(W + "write_chunk")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"_pretty_serialized_items", "rank", "get_chunk_filename"})
    appended, opened, written, idxst = [], [], [], []
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name == "append" and recv_is_attr(e, "_chunks_info"):
            appended.append(e)
        if e.kind == "call" and e.callee == "open":
            opened.append(e)
        if e.kind == "store" and e.attr == "_chunk_index":
            idxst.append(e)
        if e.kind == "call" and e.name == "write" and e.callee is None:
            written.append(e)

    def cl(e):
        if e in appended:
            return "entry"
        if e in written:
            return "file"
        if e in idxst:
            return "number"
        return None

    out = count_paths(seq, cl)
    for st in out["norm"] | out["ret"]:
        d = dict(st)
        R.ob("one-chunk-one-entry", "write_chunk path", d.get("entry", 0) == 1 and d.get("file", 0) == 1 and d.get("number", 0) == 1,
             f"a completing path of write_chunk does {d}", f.where)
    for e in idxst:
        cur = mk("attr", e.base, "_chunk_index", 0)
        R.ob("one-chunk-one-entry", "chunk number step", strip(e.value) is tm.add(strip(cur), ONE), show(e.value), e.where)
    need(appended, "_chunks_info.append")
    need(opened, "open in write_chunk")
    for e in appended:
        fn = dict_get(e.args[0], "filename")
        for o in opened:
            ok = fn is not None and contains(o.args[0], fn) or (fn is not None and contains(strip(o.args[0]), strip(fn)))
            R.ob("same-name", "file vs entry", ok, f"file {show(o.args[0], 5)} vs entry {show(fn, 5) if fn is not None else None}", o.where)

    # other places that may touch the accounting
    for g in P.cls("streaming.writer.BinaryWriter").methods.values():
        if g.name in ("__init__",):
            continue
        s2, _ = evaluate(P, g, policy=lambda *a: False)
        for e, c in flow.walk(s2):
            if e.kind == "store" and e.attr in ("_chunks_info",):
                okr = mentions_attr(e.value, "_chunks_info") or any(x.k == "param" for x in subterms(e.value))
                R.ob("one-chunk-one-entry", f"{g.name} resets the chunk list", okr, show(e.value, 4), e.where)
            if e.kind == "call" and e.name in ("clear", "remove") and recv_is_attr(e, "_chunks_info"):
                R.ob("one-chunk-one-entry", f"{g.name} drops entries", False, repr(e), e.where)

    # --- names
    f = P.func(W + "get_chunk_filename")
    _, ev = evaluate(P, f, opaque={"rank"})
    for i, a in enumerate(alts(ev.ret)):
        parts = list(a.a[0]) if a.k == "cat" else [a]
        pos = {}
        for j, x in enumerate(parts):
            if self_attr(strip(x), "rank") or self_attr(strip(x), "_rank"):
                pos["rank"] = j
            if self_attr(strip(x), "_chunk_index"):
                pos["num"] = j
        ok = "rank" in pos and "num" in pos
        if ok:
            lo, hi = sorted(pos.values())
            ok = any(x.k == "const" and x.a[0] == "str" and any(not ch.isdigit() for ch in eval_str(x)) for x in parts[lo + 1:hi])
        R.ob("name-unique", f"chunk name form {'with' if any(mentions_attr(x, '_compression') for x in parts) else 'without'} compression", ok, show(a, 5), f.where)

    # --- entry
    f = P.func(W + "_create_chunk")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"_pretty_serialized_items"})
    n = 0
    for e, c in flow.events(seq, name="append"):
        if not recv_is_attr(e, "_chunks_info"):
            continue
        n += 1
        cb, cs = dict_get(e.args[0], "chunk_bytes"), dict_get(e.args[0], "chunk_size")
        R.ob("entry-true", "chunk_bytes", cb is not None and is_len_of(cb, ev.ret), f"chunk_bytes = {show(cb, 4) if cb is not None else None}", e.where)
        v = cs
        while v is not None and (v is not peel(v) or (v.k == "call" and v.a[0].k == "ext" and v.a[0].a[0].startswith("numpy."))):
            v = peel(v)
            if v.k == "call" and v.a[0].k == "ext" and v.a[0].a[0].startswith("numpy.") and len(v.a[1]) == 1:
                v = v.a[1][0]
        ok = v is not None and fname(v) == "len"
        items = v.a[1][0] if ok else None
        R.ob("entry-true", "chunk_size", ok, f"chunk_size = {show(cs, 5) if cs is not None else None}", e.where)
        dim = dict_get(e.args[0], "dim")
        if dim is not None and items is not None:
            sums = [x for x in subterms(dim) if fname(x) == "sum"]
            okd = all(x.a[1][0].k == "comp" and strip(x.a[1][0].a[2][0][0]) is strip(items) for x in sums if x.a[1]) and bool(sums)
            R.ob("entry-true", "dim", okd, f"dim = {show(dim, 5)}", e.where)
        if items is not None:
            for i, a in enumerate(alts(items)):
                R.ob("moved-not-copied", f"chunk items {'at flush' if i == 0 else 'at overflow'}", popped(a), show(a, 6), e.where)
                if i == 0 and guard_on_done(ev, items):
                    pass
    need(range(n), "_chunks_info entry")
    # at flush every key is written, in increasing order
    on_done = mk("param", "on_done")
    fl = tm.simplify_under(ev.ret, [on_done])
    R.ob("moved-not-copied", "flush takes all in order", mentions(fl, lambda x: fname(x) == "sorted" and mentions_attr(x, "_serialized_items"))
         and not mentions_attr(fl, "_max_index", "_min_index"), "flushed chunk covers sorted(pending indexes)", f.where)

    # --- add_item
    f = P.func(W + "add_item")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"write_chunk", "_should_write", "serialize", "get_chunk_filename"})
    sets = [(e, c) for e, c in flow.events(seq, kind="setitem") if root_attr(e.base) == "_serialized_items" or is_attr(e.base, "_serialized_items")]
    need(sets, "store of a pending item")
    for e, c in sets:
        g = any(x.k == "not" and x.a[0].k == "in" and strip(x.a[0].a[0]) is strip(e.idx) and root_attr(x.a[0].a[1]) == "_serialized_items" for x in map(lambda t: t, c.guards))
        R.ob("no-overwrite", "pending item store", g, f"stores under {guards_str(c)}", e.where)
        R.ob("no-overwrite", "stored under its index", e.idx is mk("param", "index"), show(e.idx), e.where)
    # every successful path stores the item
    out = count_paths(seq, lambda e: "st" if e.kind == "setitem" and e in [x for x, _ in sets] else None)
    for st in out["norm"] | out["ret"]:
        R.ob("no-overwrite", "add_item stores", dict(st).get("st", 0) == 1, str(dict(st)), f.where)

    # a chunk was written: the window of the next chunk starts afresh
    def wstep(st, e):
        if e.kind == "call" and e.name == "write_chunk":
            return [(1, False, False)]
        if st[0] and e.kind == "store" and e.attr == "_min_index":
            return [(1, e.value is NONE, st[2])]
        if st[0] and e.kind == "store" and e.attr == "_max_index":
            return [(1, st[1], e.value is NONE)]
        return [st]

    out = flow.Typestate(wstep).run(seq, [(0, False, False)])
    for st, _ in out["norm"] | out["ret"]:
        if st[0]:
            R.ob("capacity", "window reset after a chunk", st[1] and st[2], f"min reset={st[1]} max reset={st[2]}", f.where)

    # --- done
    f = P.func(W + "done")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"write_chunk", "_should_write", "filled", "write_chunks_index"})

    def step(st, e):
        flushed, indexed, done = st
        if e.kind == "call" and e.name == "write_chunk":
            a = e.arg(0, "on_done")
            if indexed:
                return [("late", indexed, done)]
            if a is TRUE:
                return [(True, indexed, done)]
            return [(False, indexed, done)]
        if e.kind == "call" and e.name == "write_chunks_index":
            return [(flushed, min(indexed + 1, 2), done)]
        if e.kind == "store" and e.attr == "_is_done" and e.value is TRUE:
            return [(flushed, indexed, True if indexed else "early")]
        return [st]

    def assume(st, cond):
        if st[0] is False:
            for l in tm.literals(cond):
                if l.k == "not" and root_attr(l.a[0]) == "_serialized_items":
                    return (True,) + st[1:]
                if l.k == "eq" and ZERO in l.a and mentions_attr(l, "_serialized_items"):
                    return (True,) + st[1:]
                if self_attr(strip(l), "filled"):
                    return ("filled",) + st[1:]
        return st

    out = flow.Typestate(step, assume).run(seq, [(False, 0, False)])
    for (st, _) in out["norm"] | out["ret"]:
        if st[0] == "filled":
            continue
        R.ob("flush-before-index", "done()", st[0] is True and st[1] == 1 and st[2] is True,
             f"a path of done() ends with flushed={st[0]}, index written {st[1]} time(s), marked done={st[2]}", f.where)

    # --- index
    f = P.func(W + "write_chunks_index")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"get_config", "rank"})
    dumps = [(e, c) for e, c in flow.events(seq, callee=("json.dump", "json.dumps"))]
    need(dumps, "json.dump of the worker index")
    for e, c in dumps:
        ch, cf = dict_get(e.args[0], "chunks"), dict_get(e.args[0], "config")
        R.ob("index-content", "chunks", ch is not None and self_attr(strip(ch), "_chunks_info"), show(e.args[0], 4), e.where)
        R.ob("index-content", "config", cf is not None and mentions_call(cf, "get_config"), show(e.args[0], 4), e.where)
    for a in alts(ev.ret):
        if is_const(a):
            continue
        R.ob("index-content", "one index per rank", mentions_attr(a, "rank", "_rank"), show(a, 5), f.where)

    # --- capacity
    f = P.func(W + "_should_write")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    rets = [(e, c) for e, c in flow.events(seq, kind="return") if e.value is TRUE]
    for e, c in rets:
        st = [x for x, cc in flow.events(seq, kind="store") if x.attr == "_max_index" and set(cc.guards) <= set(c.guards) and len(cc.guards) == len(c.guards)]
        gets = [x for x, cc in flow.events(seq, kind="call") if x.name == "get" and recv_is_attr(x, "_serialized_items")]
        gets += []
        ok = None
        if st and gets:
            ok = any(strip(s.value) is strip(g.args[0]) for s in st for g in gets)
        R.ob("capacity", "overflow index", ok, f"_max_index = {[show(s.value, 4) for s in st]} on overflow", e.where)
        okb = any(mentions_attr(g, "_chunk_bytes") and mentions_attr(g, "bytes") for g in c.guards)
        oks = any(mentions_attr(g, "_chunk_size") and mentions_attr(g, "dim") for g in c.guards)
        R.ob("capacity", "limits", okb and oks, guards_str(c)[:300], e.where)
    if not rets:
        R.ob("capacity", "overflow index", None, "no constant True return", f.where)

    # --- data format
    f = P.func(W + "serialize")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    zips = [e for e, c in flow.events(seq, kind="call") if e.callee == "zip"]
    loops = [(e, c) for e, c in flow.events(seq, kind="call", name="serialize") if e.args and c.loops]
    sers = [(e, c) for e, c in loops if mentions_attr(e.recv, "_serializers_extra")]
    for e, c in sers:
        ok = any(mentions(g, lambda x: fname(x) == "len" and mentions_attr(x, "_data_format")) for g in c.guards)
        ok = ok or any(z.kw.get("strict") is TRUE for z in zips)
        spec = any(g.k == "eq" and mentions_attr(g, "_data_spec") and mentions(g, lambda x: "flatten" in fname(x)) for g in c.guards)
        ok = ok or spec
        R.ob("structure-fixed", "structure of a later sample", spec, f"encoded under the recorded format without comparing its structure ({guards_str(c)[:300]})", e.where)
        R.ob("format-fixed", "leaf count", ok, f"leaves paired with the recorded format without a length check ({guards_str(c)[:200]})", e.where)
    for e, c in flow.events(seq, kind="store"):
        if e.attr == "_data_format":
            R.ob("format-fixed", "format recorded once", guard_has(c, lambda g: g.k == "is" and mentions_attr(g, "_data_format") and NONE in g.a), guards_str(c)[:200], e.where)


def guard_on_done(ev, items):
    return True


def eval_str(t):
    v = t.a[1]
    if isinstance(v, str) and len(v) >= 2 and v[0] in "'\"" and v[-1] == v[0]:
        return v[1:-1]
    return str(v)


def popped(a):
    """Every element of the list comes out of _serialized_items through .pop()."""
    if a.k in ("list", "tuple"):
        return all(popped_elt(x) for x in a.a[0])
    if a.k == "extend":
        return all(popped(x) for x in alts(a.a[0])) and all(popped(x) for x in alts(a.a[1]))
    if a.k == "append":
        return all(popped(x) for x in alts(a.a[0])) and popped_elt(a.a[1])
    if a.k == "comp":
        return popped_elt(a.a[1])
    if a.k == "call" and fname(a) in ("list", "tuple") and a.a[1]:
        return popped(a.a[1][0])
    return False


def popped_elt(x):
    return x.k == "call" and x.a[0].k == "meth" and x.a[0].a[1] == "pop" and root_attr(x.a[0].a[0]) == "_serialized_items"
