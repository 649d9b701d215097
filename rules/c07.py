"""C07: a cached chunk is removed only when no reader holds it; holds are counted under the lock, released once and after reading."""
from .common import *

RD = "streaming.reader."
TH = RD + "PrepareChunksThread."


def check(P, R):
    R.rule("delete-when-free", "a chunk is removed only on paths where its hold count was read as zero")
    R.rule("count-read", "no hold is reported only if there is no count file; an unreadable count means one hold")
    R.rule("count-locked", "the count file is changed and removed only inside the lock of that count file")
    R.rule("count-step", "taking a hold adds one to the recorded count, releasing takes one away, and the count file goes only at zero")
    R.rule("count-file", "taking, releasing and testing holds use the same count file, derived from the path readers use for the chunk")
    R.rule("hold-on-request", "every prefetch of a chunk takes exactly one hold, before the file is fetched; a forced fetch takes none")
    R.rule("release-after-read", "a reader releases a chunk, or asks for its deletion, only after the sample has been loaded")
    R.rule("release-once", "the chunk left behind is released once, the current one only when it is the last of the pass; the released one is forgotten")
    R.rule("only-deleter", "chunk files are removed by no other code of the reader side")
    R.rule("delete-source", "the thread deletes only chunks that a reader has asked to delete")
    R.part(P, apply_delete, remaining, increment, decrement, paths, request, forced, reader, deleters, sources)


def idx_of(path):
    """config[ChunkedIndex(chunk_index=X)][0] -> X"""
    for x in subterms(path):
        if x.k == "new" and x.a[0].a[0].endswith("ChunkedIndex"):
            d = dict(x.a[2])
            return d.get("chunk_index") or (x.a[1][1] if len(x.a[1]) > 1 else None)
    return None


def apply_delete(P, R):
    f = P.func(TH + "_apply_delete")
    R.unit(f.qual)
    has = any(c.name == "_remaining_locks" for c in P.cls(RD + "PrepareChunksThread").methods.values())
    if not has:
        raise AnalysisBroken("_remaining_locks is gone")
    seq, _ = evaluate(P, f, opaque={"_remaining_locks"})
    ci = mk("param", "chunk_index")
    dels = [(e, c) for e, c in flow.walk(seq) if (e.kind == "call" and e.name == "delete" and mentions_attr(e.recv, "_item_loader")) or
            (removed_path(e) is not None and not ends_with(removed_path(e), ".lock", ".cnt", ".tmb"))]
    R.must("delete-when-free", "_apply_delete removes the chunk", dels, "", f.where)
    for e, c in dels:
        path = e.args[1] if e.name == "delete" and len(e.args) > 1 else removed_path(e)
        rem = [x for g in c.guards for x in subterms(g) if x.k == "call" and fname(x) == "_remaining_locks"]
        ok = any(implies_nonpos(l, x) and x.a[1] and strip(x.a[1][0]) is strip(path) for g in c.guards for l in tm.literals(g) for x in rem)
        R.ob("delete-when-free", "_apply_delete", ok, f"removal of {show(path, 4)} under {guards_str(c)[:300]}", e.where)
        if e.name == "delete":
            i = idx_of(path)
            R.ob("delete-when-free", "path of the deleted chunk", i is None and None or (strip(i) is ci and strip(e.args[0]) is ci), show(path, 6), e.where)


def count_base(f, R, P, seq, bases):
    """suffix used for the count file in this function"""
    out = set()
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.callee == "open" and e.args:
            for b in bases:
                s = suffix(e.args[0], b)
                if s is not None:
                    out.add((s, b))
    return out


def remaining(P, R):
    f = P.func(TH + "_remaining_locks")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    n = 0
    base = mk("param", f.params[1])
    for e, c in flow.walk(seq):
        if e.kind == "return" and not e.inlined:
            n += 1
            v = e.value if e.value is not None else e.term
            in_handler = any(t[1] not in ("body", "else", "final") for t in c.trys)
            for g, a in tm.galts(v):
                lits = [l for x in list(c.guards) + [g] for l in tm.literals(x)]
                absent = any(l.k == "not" and fname(l.a[0]) in ("os.path.exists", "os.path.isfile") and suffix(l.a[0].a[1][0], base) is not None for l in lits)
                inner = [x for _, x in galts(a.a[1][0])] if fname(strip(a)) == "int" and a.k == "call" and a.a[1] else []
                if tm.is_num(a):
                    ok = float(a.a[1]) >= 1 or absent
                elif any(tm.is_num(x) and float(x.a[1]) < 1 for x in inner):
                    ok = absent
                else:
                    ok = bool(fname(strip(a)) == "int") and any(suffix(file_of(x)[0], base) for x in subterms(a) if file_of(x)[0] is not None) or None
                    if a is NONE or mentions(a, lambda x: x.k == "caught"):
                        ok = None
                R.ob("count-read", "reported holds" + (" when the count cannot be read" if in_handler else ""), ok, f"returns {show(a, 5)} under {'; '.join(show(l, 4) for l in lits)}"[:300], e.where)
    # falling through to the end returns None
    if n == 0:
        raise AnalysisBroken("_remaining_locks returns nothing")


def is_lock_of(w, cnt):
    return any(fname(x).endswith("FileLock") and x.a[1] and suffix(x.a[1][0], cnt) is not None for x in subterms(w) if x.k in ("call", "new"))


def change(P, R, qual, sign, label):
    f = P.func(qual)
    R.unit(f.qual)
    seq, _ = evaluate(P, f, opaque={"__getitem__"})
    wr = [(e, c) for e, c in flow.walk(seq) if writes_to(e) is not None]
    R.must("count-step", f"{label} records the new count", wr, "", f.where)
    cnts = {}
    for e, c in wr:
        p = writes_to(e)
        cnts[strip(p)] = p
        v = strip(peel(e.args[0]))
        cur = sorted(count_values(v), key=lambda x: -len(show(x, 8)))
        okv = None
        for x in cur:
            d = tm.sub(v, x)
            if tm.is_num(d):
                okv = float(d.a[1]) == sign
                break
        if not cur and mentions(v, lambda x: x.k == "phi"):
            okv = None
        elif not cur:
            okv = False
        R.ob("count-step", f"{label} writes count {'+' if sign > 0 else '-'} 1", okv, show(v, 6), e.where)
        R.ob("count-locked", f"{label} write", in_with(c, lambda w: is_lock_of(w, p)), "withs: " + ", ".join(show(w, 4) for w in c.withs)[:300], e.where)
    for e, c in flow.walk(seq):
        p = removed_path(e)
        if p is None:
            continue
        if strip(p) in cnts:
            v = [strip(peel(x.args[0])) for x, _ in wr]
            ok = any(implies_nonpos(l, y) for g in c.guards for l in tm.literals(g) for y in v)
            R.ob("count-step", f"{label} removes the count", ok, guards_str(c)[-300:], e.where)
            R.ob("count-locked", f"{label} removal", in_with(c, lambda w: is_lock_of(w, p)), "", e.where)
    return f, seq, wr


def count_values(v):
    out = []
    for x in subterms(v):
        if x.k == "ite" and mentions(x, lambda y: fname(y) == "int"):
            out.append(x)
        if x.k == "call" and fname(x) == "int":
            out.append(x)
    return out


def increment(P, R):
    f, seq, wr = change(P, R, "streaming.downloader.Downloader._increment_local_lock", 1, "taking a hold")
    base = mk("param", f.params[1])
    for e, c in wr:
        s = suffix(writes_to(e), base)
        INC[0] = s
        R.ob("count-file", "taking a hold", s is not None or None, f"count file {show(writes_to(e), 4)}", e.where)
        # the count written when none could be read is 1
        for x in count_values(strip(peel(e.args[0]))):
            if x.k == "ite":
                for a in alts(x):
                    if tm.is_num(a):
                        R.ob("count-step", "first hold", float(a.a[1]) == 0, f"an absent count is taken as {show(a)}", e.where)


INC = [None]


def decrement(P, R):
    f, seq, wr = change(P, R, TH + "_decrement_local_lock", -1, "releasing a hold")
    ci = mk("param", f.params[1])
    for e, c in wr:
        p = strip(writes_to(e))
        i = idx_of(p)
        R.ob("count-file", "releasing a hold: chunk", i is None and None or strip(i) is ci, show(p, 5), e.where)
        base = tm.cat(p.a[0][:-1]) if p.k == "cat" else None
        base = p.a[0][0] if p.k == "cat" and len(p.a[0]) == 2 else base
        s = suffix(p, base) if base is not None else None
        g = P.func("streaming.downloader.Downloader._increment_local_lock")
        s2 = {x for x, _ in count_base(g, R, P, evaluate(P, g)[0], [mk("param", g.params[1])])}
        h = P.func(TH + "_remaining_locks")
        s3 = {x for x, _ in count_base(h, R, P, evaluate(P, h)[0], [mk("param", h.params[1])])}
        R.ob("count-file", "taking and releasing use one count file", (s in s2) if s and s2 else None, f"{s} vs {sorted(s2)}", e.where)
        R.ob("count-file", "testing and releasing use one count file", (s in s3) if s and s3 else None, f"{s} vs {sorted(s3)}", e.where)


def paths(P, R):
    """the path a hold is taken on equals the path readers and the deleting thread use"""
    g = P.func("streaming.config.ChunksConfig.__getitem__")
    R.unit(g.qual)
    _, ev = evaluate(P, g)
    r = strip(ev.ret)
    if r.k != "tuple":
        raise AnalysisBroken("__getitem__ does not return a tuple")
    ci = mk("attr", mk("param", g.params[1]), "chunk_index", 0)
    want = {}
    f = P.func("streaming.config.ChunksConfig.download_chunk_from_index")
    R.unit(f.qual)
    pc = mk("param", f.params[1])

    def norm(t):
        def fn(x):
            if x.k == "attr" and x.a[1] == "chunk_index" and x.a[0].k == "param":
                return pc
        return tm.rebuild(strip(t), fn)

    reads = [(norm(g), norm(a)) for g, a in galts(r.a[0][0])]
    seq, _ = evaluate(P, f, opaque={"download_chunk_from_index", "try_decompress"})
    inc = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "_increment_local_lock"]
    R.must("hold-on-request", "requesting a chunk takes a hold", inc, "", f.where)
    for e, c in inc:
        got = norm(e.args[0])
        for g, want in reads:
            plain = any(l.k == "is" and NONE in l.a and mentions_attr(l, "_compressor") or l.k == "not" and strip(l.a[0]).k == "attr" and mentions_attr(l, "_compressor", "_compressor_name") for l in tm.literals(g))
            a = norm(tm.simplify_under(got, tm.literals(g)))
            # without compression there is no suffix to replace
            b = tm.rebuild(a, lambda x: x.a[0].a[0] if plain and x.k == "call" and fname(x) == "replace" and mentions_attr(x, "_compressor_name") else None)
            ok = a is want or strip(b) is want or strip(b) is norm(tm.rebuild(want, lambda x: x.a[0].a[0] if plain and x.k == "call" and fname(x) == "replace" else None))
            R.ob("count-file", f"path a hold is taken on, chunk {'not ' if plain else ''}compressed" if len(reads) > 1 else "path a hold is taken on", ok,
                 f"hold on {show(a, 6)}, readers use {show(want, 6)}", e.where)


def request(P, R):
    f = P.func("streaming.config.ChunksConfig.download_chunk_from_index")
    seq, _ = evaluate(P, f, opaque={"download_chunk_from_index", "try_decompress"})
    sl = mk("param", "skip_lock")
    if "skip_lock" not in f.params:
        raise AnalysisBroken("skip_lock parameter is gone")
    bad = []

    def step(st, ev):
        n, flag = st
        if ev.kind == "call" and ev.name == "_increment_local_lock":
            return [(min(2, n + 1), flag)]
        if ev.kind == "call" and ev.name == "download_chunk_from_index" and n == 0 and flag != "nolock":
            bad.append(ev)
        return [st]

    def assume(st, cond):
        n, flag = st
        for l in tm.literals(cond):
            l = strip(l)
            if l is sl:
                flag = "nolock"
            elif l.k == "is" and mentions_attr(l, "_downloader") and NONE in l.a:
                flag = "nodl"
            elif l.k == "not" and mentions_attr(l, "_downloader") and l.a[0].k == "attr":
                flag = "nodl"
            elif l.k == "or" and not flag and all(x is sl or mentions_attr(x, "_downloader") for x in l.a[0]):
                flag = "none"
        return (n, flag)

    out = flow.Typestate(step, assume).run(seq, [(0, "")])
    for e in dict.fromkeys(bad):
        R.ob("hold-on-request", "hold before the fetch", False, "a chunk is fetched before its hold is taken", e.where)
    if not bad:
        R.ob("hold-on-request", "hold before the fetch", True, "", f.where)
    for (n, flag), _ in out["norm"] | out["ret"]:
        if flag == "nodl":
            ok = n == 0 or None
        elif flag == "nolock":
            ok = n == 0
        elif flag == "none":
            ok = n == 0 or None
        else:
            ok = n == 1
        R.ob("hold-on-request", {"": "ordinary request", "nolock": "request without hold", "nodl": "no downloader", "none": "no hold wanted"}[flag], ok, f"{n} hold(s) taken", f.where)


def forced(P, R):
    f = P.func(TH + "run")
    R.unit(f.qual)
    seq, _ = evaluate(P, f, opaque={"_maybe_delete_chunks", "_pre_load_chunk", "download_chunk_from_index"})
    n = 0
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name == "download_chunk_from_index":
            n += 1
            frc = mentions_attr(e.args[0], "_force_download_queue")
            sl = e.arg(1, "skip_lock")
            if frc:
                R.ob("hold-on-request", "forced fetch takes no second hold", sl is TRUE, show(e.term, 4), e.where)
            elif mentions_attr(e.args[0], "_to_download_queue"):
                R.ob("hold-on-request", "prefetch takes a hold", sl is None or sl is FALSE, show(e.term, 4), e.where)
            else:
                R.ob("hold-on-request", "origin of the requested chunk", None, show(e.term, 5), e.where)
    need(range(n), "downloads in the prefetch thread", 2)


def is_last(t):
    return strip(t).k == "attr" and strip(t).a[1] == "_last_chunk_index"


def is_cur(t):
    t = strip(t)
    return t.k == "attr" and t.a[1] == "chunk_index" and t.a[0].k == "param"


def reader(P, R):
    f = P.func(RD + "BinaryReader.read")
    R.unit(f.qual)
    seq, _ = evaluate(P, f, opaque={"_try_load_config", "_decrement_local_lock", "__getitem__", "load_item_from_chunk", "delete", "stop", "close", "download"})
    rel = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "_decrement_local_lock"]
    R.must("release-once", "a reader releases the chunks it leaves", rel, "holds are never released", f.where)
    dele = [e for e, c in flow.walk(seq) if e.kind == "call" and e.name == "delete" and mentions_attr(e.recv, "_prepare_thread")]
    for label, pred in (("release", lambda e: e.kind == "call" and e.name == "_decrement_local_lock"), ("deletion request", lambda e: e in dele)):
        seen, bad = before(seq, lambda e: e.kind == "call" and e.name == "load_item_from_chunk", pred)
        for e in dict.fromkeys(seen):
            R.ob("release-after-read", f"{label} of {argname(e)}", e not in bad, "reached on a path that has not loaded the sample yet" if e in bad else "", e.where)
    for e, c in rel:
        lits = [strip(l) for g in c.guards for l in tm.literals(g)]
        moved = any(l.k == "not" and l.a[0].k == "eq" and any(is_cur(x) for x in l.a[0].a) and any(is_last(x) for x in l.a[0].a) for l in lits)
        lastidx = any(l.k == "attr" and l.a[1] == "is_last_index" for l in lits)
        if is_last(e.args[0]):
            R.ob("release-once", "release of the chunk left", moved or (None if lastidx else False), f"released under {guards_str(c)[-300:]}", e.where)
        elif is_cur(e.args[0]):
            R.ob("release-once", "release of the current chunk", lastidx, f"released under {guards_str(c)[-300:]}", e.where)
        else:
            R.ob("release-once", "released chunk", None, show(e.args[0], 4), e.where)
    double, alias_bad = [], []

    def held(x):
        """what the attribute holds at that point, whichever way it came about"""
        return is_last(x) or x.k == "ite" and any(is_last(y) for y in tm.alts(x)) and all(y is NONE or is_last(y) for y in tm.alts(x))

    # state: (what _last_chunk_index holds: prev/cur/none, released holds, known: the sample is in another chunk than the held one)
    def step(st, ev):
        alias, done, moved = st
        if ev.kind == "call" and ev.name == "_decrement_local_lock":
            who = alias if is_last(ev.args[0]) else "cur" if is_cur(ev.args[0]) else None
            if who:
                if who in done:
                    double.append(ev)
                return [(alias, done | {who}, moved)]
        if ev.kind == "store" and ev.attr == "_last_chunk_index":
            v = ev.value
            return [("none" if v is NONE else "cur" if is_cur(v) else "?", done, moved)]
        return [st]

    def assume(st, cond):
        alias, done, moved = st
        for l in tm.literals(cond):
            l = strip(l)
            ne = l.k == "not"
            q = l.a[0] if ne else l
            if q.k == "eq" and any(is_cur(x) for x in q.a) and any(held(x) for x in q.a):
                if ne and alias == "cur" or not ne and (alias == "prev" and moved or alias == "none"):
                    return None
                moved = moved or ne
            if q.k == "is" and NONE in q.a and any(held(x) for x in q.a) and (alias == "cur" and not ne or alias == "none" and ne):
                return None
        return (alias, done, moved)

    out = flow.Typestate(step, assume).run(seq, [("prev", frozenset(), False)])
    for e in dict.fromkeys(double):
        R.ob("release-once", f"second release of {argname(e)}", False, "the same hold is released twice on one path", e.where)
    bad = [(a, d) for (a, d, _m), _ in out["norm"] | out["ret"] if (a in d)]
    R.ob("release-once", "a released chunk is forgotten", not bad, "after releasing a chunk the reader still takes it for the chunk it holds" if bad else "", f.where)


def argname(e):
    a = e.args[0]
    if strip(a).k in ("list", "tuple") and strip(a).a[0]:
        a = strip(a).a[0][0]
    return "the chunk left" if is_last(a) else "the current chunk" if is_cur(a) else "a chunk"


def deleters(P, R):
    """callers of the loaders' delete and removals of files in the reader side modules"""
    ok_in = {"PrepareChunksThread._apply_delete"}
    from sa.program import walk_own
    n = 0
    for f in list(P.funcs.values()):
        mod = f.module.name
        if not mod.endswith(("streaming.reader", "streaming.item_loader", "streaming.config", "streaming.cache")):
            continue
        try:
            seq, _ = evaluate(P, f, policy=lambda *a: False)
        except AnalysisBroken:
            continue
        for e, c in flow.walk(seq):
            short = f.qual.split(".", 2)[-1]
            if e.kind == "call" and e.name == "delete" and e.recv is not None and mentions_attr(e.recv, "_item_loader", "item_loader"):
                n += 1
                R.ob("only-deleter", f"{short} deletes through the loader", any(f.qual.endswith(x) for x in ok_in) or called_only_by(P, f, ok_in), repr(e)[:200], e.where)
            p = removed_path(e)
            if p is None:
                continue
            n += 1
            if mod.endswith("item_loader"):
                # the removal itself, in delete(): the path given
                ok = f.name == "delete" or called_only_by(P, f, {".delete"})
                R.ob("only-deleter", f"{short} removes a file", ok and strip(p).k == "param", repr(e)[:200], e.where)
            elif mod.endswith("config"):
                # only the compressed original after reading it
                okc = mentions_param(p, "local_chunkpath") and not mentions_call(p, "replace")
                read = any(x.kind == "call" and x.name == "read" for x, _ in flow.walk(seq))
                R.ob("only-deleter", f"{short} removes a file", (okc and read) or None, repr(e)[:200], e.where)
            else:
                R.ob("only-deleter", f"{short} removes a file", any(f.qual.endswith(x) for x in ok_in | {"_decrement_local_lock"}) and ends_with(p, ".lock", ".cnt") or called_only_by(P, f, ok_in) or False,
                     repr(e)[:200], e.where)
    need(range(n), "removals on the reader side", 3)


def called_only_by(P, f, names):
    cs = {g.qual for g, n in call_sites(P, f.name)}
    return bool(cs) and all(any(q.endswith(x) for x in names) for q in cs)


def sources(P, R):
    f = P.func(TH + "_maybe_delete_chunks")
    R.unit(f.qual)
    seq, _ = evaluate(P, f, opaque={"_apply_delete", "_can_delete_chunk", "_get_from_queue"})
    xs = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "_apply_delete"]
    R.must("delete-source", "deletion", xs, "", f.where)
    for e, c in xs:
        a = before_loops(seq, e.args[0])
        ok = mentions_attr(a, "_chunks_index_to_be_deleted", "_to_delete_queue") or (None if mentions(a, lambda x: x.k == "phi") else False)
        R.ob("delete-source", "deleted chunk", ok, show(a, 5), e.where)
        R.ob("delete-source", "deletion needs a cache limit", any(mentions_attr(g, "_max_cache_size") for g in c.guards) or None, guards_str(c)[-200:], e.where)
    cls = P.cls(RD + "PrepareChunksThread")
    for m in cls.methods.values():
        s, _ = evaluate(P, m, policy=lambda *a: False)
        for e, c in flow.walk(s):
            if e.kind == "call" and e.name in ("append", "extend", "insert") and recv_is_attr(e, "_chunks_index_to_be_deleted"):
                R.ob("delete-source", f"{m.name} adds to the list", mentions_attr(before_loops(s, e.args[-1]), "_to_delete_queue"), show(e.args[-1], 4), e.where)
    for f2, n in call_sites(P, "_apply_delete"):
        R.ob("delete-source", f"caller {f2.qual.split('.')[-1]}", f2.qual.endswith("_maybe_delete_chunks") or called_only_by(P, f2, {"_maybe_delete_chunks", "run"}), "", f"{f2.module.rel}:{n.lineno}")
