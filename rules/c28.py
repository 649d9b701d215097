"""C28: a pass delivers every sample of a worker's share once, chunk after chunk."""
from .common import *

DS = "streaming.dataset.StreamingDataset"
U, K, N, G, L = "upcoming_indexes", "worker_next_chunk_index", "num_chunks", "global_index", "stop_length"
CH, IV = "worker_chunks", "worker_intervals"


def check(P, R):
    R.rule("next", "the sample asked for is the next one of the chunk the position was taken from, chunks follow each other without a gap, all chunks from the current one on are announced, and the last sample is marked")
    R.rule("end", "a pass ends only after the last sample of the share, and every end starts the next epoch and drops a loaded state")
    R.rule("start", "a pass starts at the first chunk of the worker's own share with nothing pending, and announces its chunks again")
    R.rule("settings", "epoch, batch size, number of workers, shuffle and drop_last are those set by the user or the loader")
    R.rule("slice", "a slice reads every index of its range, in order")
    R.part(P, following, ends, starts, settings, slices)


def world(u=None, k=None, g=None, rest=None, triggered=None, state=None):
    """a scenario: truth of conditions when u positions are pending, k chunks were begun (of 5), g samples were read (of 10)
    and `rest` positions remain once one was taken"""
    def num(x):
        if is_attr(x, G) and g is not None:
            return const(g)
        if is_attr(x, L):
            return const(10)
        if is_attr(x, K) and k is not None:
            return const(k)
        if is_attr(x, N):
            return const(5)
        if x.k == "call" and fname(x) == "len" and x.a[1]:
            y = strip(x.a[1][0])
            if is_attr(y, CH) or is_attr(y, IV):
                return const(5)
            if is_attr(y, U):
                return None if u is None else const(u)
            if taken(y):
                return None if rest is None else const(rest)
            if y.k in ("sub", "mut", "rest"):
                return None
            if mentions_attr(y, U) or ordered(y):
                return None if rest is None else const(rest + 1)
        return None

    def atom(x):
        if is_attr(x, U):
            return None if u is None else u > 0
        if is_attr(x, "has_triggered_download"):
            return triggered
        if is_attr(x, "_state_dict"):
            return state
        if x.k == "is" and NONE in x.a:
            o = x.a[0] if x.a[1] is NONE else x.a[1]
            if is_attr(o, "_state_dict"):
                return None if state is None else not state
            if is_attr(o, N) or is_attr(o, "shuffler") or is_attr(o, U):
                return False
        if taken(x) and rest is not None:
            return rest > 0
        if x.k in ("lt", "le", "eq"):
            y = strip(spec(x, atom)) if any(z.k == "ite" for z in subterms(x)) else x
            m = {z: v for z, v in ((z, num(z)) for z in subterms(y)) if v is not None}
            m = {z: v for z, v in m.items() if not any(o is not z and contains(o, z) for o in m)}
            if m:
                r = tm.subst(y, m)
                return True if r is TRUE else False if r is FALSE else None
        if x.k == "call" and fname(x) == "len":
            v = num(x)
            return None if v is None else v is not ZERO
        return None
    return atom


def called(x):
    """a call of the shuffler"""
    return x.k == "call" and (x.a[0].k == "meth" and x.a[0].a[1] == "shuffler" or mentions(x.a[0], lambda y: is_attr(y, "shuffler")))


def ordered(y):
    return mentions(y, called)


def taken(y):
    """a list of positions after the first was taken away"""
    y = strip(y)
    if y.k in ("sub", "rest") and rest_of(y) is None:
        return False
    return y.k in ("mut", "pop", "sub", "rest") and (mentions_attr(y, U) or ordered(y))


def backwards(x):
    return x.k == "call" and fname(x) in ("reversed", "list.reverse", "numpy.flip") or x.k == "mut" and x.a[1] in ("reverse", "sort") or x.k == "slice" and strip(x.a[2] if len(x.a) > 2 else NONE) is const(-1)


def rest_of(y):
    """x of x[1:]"""
    if y.k == "sub" and strip(y.a[1]).k == "slice":
        i = strip(y.a[1])
        if strip(i.a[0]) is ONE and i.a[1] is NONE and (len(i.a) < 3 or i.a[2] in (NONE, ONE)):
            return strip(y.a[0])
    if y.k == "rest" and (y.a[1] == 1 or y.a[1] is ONE):
        return strip(y.a[0])
    if y.k == "mut" and y.a[1] == "del" and strip(y.a[2][0]) is ZERO:
        return strip(y.a[0])
    return None


def live(c, atom):
    return all(truth3(g, atom) is not False for g in c.guards)


def sample(P):
    """the request made in __next__: (event, context, {field: value})"""
    f = P.func(f"{DS}.__next__")
    seq, ev = evaluate(P, f, opaque={"__getitem__", "_get_log_msg"}, policy=lambda a, b, d: d < 5 and b.cls is f.cls)
    evs = list(flow.walk(seq))
    names = [n.target.id for n in P.cls("streaming.sampler.ChunkedIndex").node.body if isinstance(n, ast.AnnAssign)]
    out = []
    for e, c in evs:
        if e.kind == "call" and (e.callee or "").endswith("ChunkedIndex"):
            d = dict(zip(names, e.args))
            d.update({k: v for k, v in e.kw.items() if k})
            out.append((e, c, d))
    need(out, "request in __next__")
    return f, evs, ev, out


def value_after(evs, attr, atom, start):
    """value of an attribute at the end of the function in a scenario (None when not known)"""
    v = start
    for e, c in evs:
        if e.kind == "store" and e.attr == attr and e.base.k == "self":
            t = [truth3(g, atom) for g in c.guards]
            if False in t:
                continue
            if None in t or c.loops:
                return None
            v = strip(spec(e.value, atom))
        elif e.kind == "del" and e.idx is not None and isinstance(v, T) and strip(spec(e.base, atom)) is v:
            t = [truth3(g, atom) for g in c.guards]
            if False in t:
                continue
            if None in t or c.loops:
                return None
            v = mk("mut", v, "del", (strip(e.idx),), 0)
    return v


def following(P, R):
    f, evs, ev, reqs = sample(P)
    R.unit(f.qual)
    k = None
    for e, c in evs:
        for t in [e.term, e.value] + list(c.guards):
            if isinstance(t, T):
                for x in subterms(t):
                    if is_attr(x, K):
                        k = strip(x)
    if k is None:
        raise AnalysisBroken("no number of the chunk in __next__")
    fresh, mid = world(0, 2, 3), world(4, 2, 3)
    last = {}
    for name, atom in (("a new chunk", fresh), ("within a chunk", mid)):
        for e, c, d in reqs:
            if not live(c, atom):
                continue
            ci = strip(spec(d["chunk_index"], atom)) if d.get("chunk_index") is not None else None
            off = None
            if ci is not None and ci.k == "sub" and is_attr(strip(ci.a[0]), CH):
                off = tm.sub(strip(ci.a[1]), k)
            last[name] = (off, e)
            # the position
            ix = strip(spec(d["index"], atom)) if d.get("index") is not None else None
            ok = None
            if ix is not None and ix.k == "call" and ix.a[0].k == "meth" and ix.a[0].a[1] == "pop":
                ok = bool(ix.a[1]) and strip(ix.a[1][0]) is ZERO
                src = strip(ix.a[0].a[0])
            elif ix is not None and ix.k == "call" and ix.a[0].k == "meth" and ix.a[0].a[1] == "popleft":
                ok, src = True, strip(ix.a[0].a[0])
            elif ix is not None and ix.k == "sub" and strip(ix.a[1]) is ZERO:
                src = strip(ix.a[0])
                left = value_after(evs, U, atom, src)
                if isinstance(left, T) and left.k in ("sub", "mut", "rest") and strip(left.a[0]) is src and rest_of(left) is None:
                    ok = False
                elif left is src or left is not None and rest_of(left) is src:
                    ok = left is not src
            elif ix is not None and ix.k == "sub" and is_const(strip(ix.a[1])):
                ok, src = False, strip(ix.a[0])
            else:
                src = None
            if src is not None and ok is False and mentions(src, backwards):
                ok = None
            R.ob("next", f"{name}: first pending position", ok, show(ix, 4) if ix is not None else "missing", e.where)
            if src is None:
                continue
            if name == "within a chunk":
                R.ob("next", f"{name}: of the pending positions", is_attr(src, U) or (None if src.k in ("ite", "call") and mentions_attr(src, U) else False), show(src, 4), e.where)
            else:
                ar = [x for x in subterms(src) if x.k == "call" and fname(x) in ("numpy.arange", "range")]
                if not ar:
                    R.ob("next", f"{name}: positions of its interval", False if is_attr(src, U) else None, show(src, 4), e.where)
                    continue
                a = [strip(y) for y in ar[0].a[1]]
                iv = [strip(y.a[0]) if y.k == "sub" else None for y in a]
                ok = len(a) == 2 and iv[0] is not None and iv[0] is iv[1] and strip(a[0].a[1]) is ONE and strip(a[1].a[1]) is const(2)
                R.ob("next", f"{name}: the whole interval", ok, show(ar[0], 5), e.where)
                if iv and iv[0] is not None and iv[0].k == "sub" and is_attr(strip(iv[0].a[0]), IV):
                    R.ob("next", f"{name}: chunk and interval at the same place", off is not None and tm.sub(strip(iv[0].a[1]), k) is off if off is not None else None, f"{show(ci, 4)} with {show(iv[0], 4)}", e.where)
                sh = [x for x in subterms(src) if called(x)]
                for x in sh[:1]:
                    R.ob("next", f"{name}: order of this chunk", any(strip(y) is strip(iv[0].a[1]) for y in x.a[1]) if iv and iv[0] is not None and iv[0].k == "sub" else None, show(x, 3), e.where)
    (o1, e1), (o2, e2) = last.get("a new chunk", (None, None)), last.get("within a chunk", (None, None))
    after = value_after(evs, K, fresh, k)
    kept = value_after(evs, K, mid, k)
    if after is not None:
        R.ob("next", "the next chunk is the following one", tm.sub(after, k) is ONE, f"{K} = {show(after, 4)}", f.where)
    if kept is not None:
        R.ob("next", "the chunk stays while positions are pending", kept is k, f"{K} = {show(kept, 4)}", f.where)
    if o1 is not None and o2 is not None and after is not None:
        # o2(after) == o1
        R.ob("next", "a chunk is read under the number it was begun with", tm.sub(after, k) is tm.sub(o1, o2), f"begun at {K} + {show(o1, 2)}, read at {K} + {show(o2, 2)}", e2.where)
    else:
        R.ob("next", "a chunk is read under the number it was begun with", None, "chunk of the request not understood", reqs[0][0].where)
    R.ob("next", "the first chunk is the first of the share", o1 is ZERO if o1 is not None else None, f"{K} + {show(o1, 2) if o1 is not None else '?'}", f.where)
    # announced chunks
    for name, u in (("a new chunk", 0), ("within a chunk", 4)):
        for trig in (False, True):
            atom = world(u, 2, 3, triggered=trig)
            for e, c, d in reqs:
                if not live(c, atom) or d.get("chunk_indexes") is None:
                    continue
                v = strip(spec(d["chunk_indexes"], atom))
                while v.k == "call" and fname(v) in ("list", "tuple") and len(v.a[1]) == 1:
                    v = strip(v.a[1][0])
                if trig:
                    R.ob("next", f"{name}: announced once", v is NONE or (None if v.k == "ite" else False), show(v, 4), e.where)
                    continue
                ok = None
                off = last.get(name, (None,))[0]
                if v is NONE:
                    ok = False
                elif v.k == "sub" and is_attr(strip(v.a[0]), CH):
                    s = strip(v.a[1])
                    if s.k == "slice" and off is not None:
                        lo = tm.sub(strip(s.a[0]), k) if s.a[0] is not NONE else None
                        ok = lo is not None and lo is off and s.a[1] is NONE and len(s.a) > 2 and s.a[2] in (NONE, ONE)
                elif is_attr(v, CH):  # also those already read
                    ok = False
                R.ob("next", f"{name}: chunks announced from the current one on", ok, show(v, 4), e.where)
    tv = value_after(evs, "has_triggered_download", world(4, 2, 3), None)
    R.ob("next", "announced only once", tv is TRUE if tv is not None else (False if not any(e.kind == "store" and e.attr == "has_triggered_download" for e, c in evs) else None), show(tv, 2) if tv is not None else "not noted", f.where)
    # last index
    for name, u, kk, rest, want in (("last position of the last chunk", 1, 5, 0, True), ("a position of the last chunk", 3, 5, 2, False), ("last position of another chunk", 1, 3, 0, False),
                                    ("only position of a new last chunk", 0, 4, 0, True), ("first position of a new last chunk", 0, 4, 2, False), ("only position of another new chunk", 0, 2, 0, False)):
        atom = world(u, kk, 3, rest)
        for e, c, d in reqs:
            if not live(c, atom):
                continue
            v = d.get("is_last_index")
            if v is None:
                late = [x.value for x, xc in evs if x.kind == "store" and x.attr == "is_last_index" and live(xc, atom)]
                v = late[-1] if late else None
            r = truth3(v, atom) if v is not None else False
            R.ob("next", f"marked as last: {name}", None if r is None else r is want, show(v, 5) if v is not None else "not given", e.where)
    # what is returned
    for e, c, d in reqs:
        rets = [x for g, x in galts(strip(ev.ret))] if ev.ret is not None else []
        ok = any(x.k == "call" and mentions(x, lambda y: strip(y) is strip(e.term)) for x in rets)
        R.ob("next", "the sample asked for is returned", ok or (None if rets and not all(is_const(x) for x in rets) else False), show(ev.ret, 2) if ev.ret is not None else "nothing", f.where)
    gv = value_after(evs, G, world(4, 2, 3), None)
    gk = [x for x in subterms(gv) if is_attr(x, G)] if gv is not None else []
    R.ob("next", "samples are counted one by one", tm.sub(gv, strip(gk[0])) is ONE if gk else (None if gv is not None else False), show(gv, 3) if gv is not None else "not counted", f.where)


def ends(P, R):
    f, evs, ev, reqs = sample(P)
    stops = [(e, c) for e, c in evs if e.kind == "raise" and "StopIteration" in show(e.value, 2)]
    need(stops, "end of a pass")
    for name, u, kk, g in (("before the first chunk", 0, 0, 0), ("within a chunk", 4, 2, 3), ("before the last chunk", 0, 4, 9), ("within the last chunk", 1, 5, 9)):
        atom = world(u, kk, g)
        hit = [(e, c) for e, c in stops if all(truth3(x, atom) is True for x in c.guards)]
        R.ob("end", f"goes on {name}", not hit, guards_str(hit[0][1]) if hit else "", hit[0][0].where if hit else f.where)
    for name, u, kk, g in (("the last sample", 0, 5, 10), ("the last chunk", 0, 5, 3)):
        atom = world(u, kk, g)
        hit = [(e, c) for e, c in stops if live(c, atom)]
        R.ob("end", f"ends after {name}", bool(hit), "", f.where)

        def step(st, e):
            ep, rs = st
            if e.kind == "store" and e.attr == "current_epoch" and e.base.k == "self":
                ep = "next" if any(is_attr(x, "current_epoch") and tm.sub(strip(e.value), strip(x)) is ONE for x in subterms(e.value)) else "other"
            if e.kind == "store" and e.attr == "_state_dict" and e.base.k == "self":
                rs = e.value is NONE
            if e.kind == "call" and e.name == "reset_state_dict" and not e.inlined:
                rs = True
            return [(ep, rs)]

        seq, _ = evaluate(P, f, opaque={"__getitem__", "_get_log_msg"}, policy=lambda a, b, d: d < 5 and b.cls is f.cls)
        out = flow.Typestate(step, under(atom)).run(seq, [("same", False)])
        states = {s for s, *_ in out["raise"]}
        R.ob("end", f"after {name}: the next epoch", None if not states else all(s[0] == "next" for s in states), str(sorted(states)), f.where)
        R.ob("end", f"after {name}: a loaded state is dropped", None if not states else all(s[1] for s in states), str(sorted(states)), f.where)


def starts(P, R):
    f = P.func(f"{DS}.__iter__")
    seq, ev = evaluate(P, f, opaque={"_get_log_msg", "_validate_state_dict", "_create_cache", "_create_shuffler", "_resume", "_find_chunks_per_workers_on_which_to_skip_deletion",
                                     "_map_node_worker_rank_to_chunk_indexes_to_not_delete", "get_chunks_and_intervals_per_workers", "detect"}, policy=lambda a, b, d: d < 5 and b.cls is f.cls)
    evs = list(flow.walk(seq))
    R.unit(f.qual)
    fresh, res = world(state=False), world(state=True)
    at = {a: value_after(evs, a, fresh, None) for a in (U, K, G, N, L, CH, IV, "has_triggered_download")}
    empty = lambda v: isinstance(v, T) and v.k == "list" and not v.a[0]
    has = {e.attr for e, c in evs if e.kind == "store"}
    used = {n.attr for m in P.cls(DS).methods.values() for n in ast.walk(m.node) if isinstance(n, ast.Attribute)}
    has |= {a for a in at if a not in used}  # kept under another name: not decided

    def ob(name, a, ok):
        R.ob("start", name, ok(at[a]) if at[a] is not None else (None if a in has else False), show(at[a], 4) if at[a] is not None else "not set", f.where)

    ob("no position is pending", U, empty)
    ob("first chunk", K, lambda v: v is ZERO)
    ob("no sample counted", G, lambda v: v is ZERO)
    lens = lambda v: v.k == "call" and fname(v) == "len" and (strip(v.a[1][0]) in (at[CH], at[IV]) or mentions_attr(v, CH, IV))
    ob("number of chunks", N, lambda v: lens(v) or (None if not is_const(v) else False))
    ob("chunks announced again", "has_triggered_download", lambda v: v is FALSE)
    tr = value_after(evs, "has_triggered_download", res, None)
    R.ob("start", "chunks announced again by a resumed pass", tr is FALSE if tr is not None else (None if "has_triggered_download" in has else False), show(tr, 2) if tr is not None else "not set", f.where)
    ch, iv = at[CH], at[IV]
    if ch is not None and iv is not None and ch.k == "sub" and iv.k == "sub":
        R.ob("start", "chunks and intervals of the same worker", strip(ch.a[1]) is strip(iv.a[1]), f"{show(ch.a[1], 4)} / {show(iv.a[1], 4)}", f.where)
        a, b = strip(ch.a[0]), strip(iv.a[0])
        if a.k == "sub" and b.k == "sub" and strip(a.a[0]) is strip(b.a[0]):
            R.ob("start", "chunks first, then intervals", strip(a.a[1]) is ZERO and strip(b.a[1]) is ONE, f"{show(a, 2)} / {show(b, 2)}", f.where)
    else:
        R.ob("start", "chunks and intervals of the same worker", None, "", f.where)
    v = at[L]
    if v is not None and iv is not None:
        cs = [x for x in subterms(v) if x.k == "comp"]
        ok = None
        if cs:
            it = [x for x in subterms(v) if x.k == "elem"]
            whole = any(strip(x.a[0]) is iv or mentions_attr(x.a[0], IV) for x in it)
            body = [x for x in subterms(v) if x.k == "poly"]
            ok = whole and any(two_one(x) for x in body) and v.k == "call" and fname(v) == "sum"
            if not whole and it:
                ok = False
        R.ob("start", "length of the share", ok, show(v, 7), f.where)
    # who the assignment is asked for
    t = [e for e, c in evs if e.kind == "call" and e.name == "get_chunks_and_intervals_per_workers"]
    need(t, "assignment asked for in __iter__")
    for e in t:
        args = [strip(a) for a in list(e.args) + list(e.kw.values())]
        for i, (nm, p) in enumerate((("environment", "distributed_env"), ("batch size", "batch_size"), ("epoch", "current_epoch"))):
            hit = [a for a in args if mentions_attr(a, p) or mentions_key(a, p)]
            R.ob("start", f"assignment for this {nm}", bool(hit) or (None if nm == "environment" or any(not is_const(a) for a in args) and len(args) < 4 else False), ", ".join(show(a, 3) for a in args), e.where)


def two_one(x):
    """interval[2] - interval[1]"""
    it = tm.poly_items(x)
    if len(it) != 2:
        return False
    d = {}
    for m, k in it.items():
        if len(m) != 1 or m[0].k != "sub":
            return False
        d[k] = strip(m[0])
    return set(d) == {1, -1} and strip(d[1].a[1]) is const(2) and strip(d[-1].a[1]) is ONE and strip(d[1].a[0]) is strip(d[-1].a[0])


def settings(P, R):
    c = P.cls(DS)
    n = 0
    for name, attr in (("set_shuffle", "shuffle"), ("set_drop_last", "drop_last"), ("set_batch_size", "batch_size"), ("set_num_workers", "num_workers"), ("set_epoch", "current_epoch")):
        f = c.find(name)
        if f is None:
            R.ob("settings", name, False, "not there", "")
            continue
        n += 1
        p = mk("param", [x for x in f.params if x != "self"][0])
        seq, ev = evaluate(P, f, policy=lambda a, b, d: d < 4 and b.cls is c)
        v = value_after(list(flow.walk(seq)), attr, world(state=False), None)
        ok = v is not None and (v is p or v.k == "or" and strip(v.a[0][0]) is p and is_const(strip(v.a[0][-1])) and attr == "num_workers" or v.k == "ite" and all(x is p or x is ONE for x in map(strip, (y for _, y in galts(v)))))
        if v is None and any(e.kind == "store" and e.attr == attr for e, _ in flow.walk(seq)):
            ok = None
        R.ob("settings", f"{name} is kept", ok, show(v, 3) if v is not None else "not stored", f.where)
    # the constructor keeps what it was given
    f = P.func(f"{DS}.__init__")
    seq, ev = evaluate(P, f, policy=lambda a, b, d: d < 3 and b.cls is c)
    ps = set(f.params)
    last = {}
    for e, cx in flow.walk(seq):
        if e.kind == "store" and e.base.k == "self" and e.attr.lstrip("_") in ps:
            last.setdefault(e.attr, []).append((strip(e.value), cx, e))
    for a, vs in sorted(last.items()):
        p = mk("param", a.lstrip("_"))
        v, cx, e = vs[-1]
        if a in ("drop_last", "shuffle", "seed", "max_pre_download", "index_path", "storage_options", "serializers", "max_cache_size", "item_loader") or a == "_encryption":
            if v is p:
                ok = True
            elif a in ("drop_last", "shuffle"):
                got = [truth3(v, given(p, b)) for b in (True, False)]
                ok = None if None in got else got == [True, False]
            elif not mentions(v, lambda x: x is p):
                ok = False
            else:
                ok = True if v.k == "ite" and any(strip(x) is p for _, x in galts(v)) else None
            R.ob("settings", f"constructor keeps {a}", ok, show(v, 5), e.where)
    need(range(n), "settings of a dataset", 4)
    # the shuffler is made with them
    f = P.func(f"{DS}._create_shuffler")
    seq, ev = evaluate(P, f)
    at = world(state=False)
    for g, v in galts(spec(strip(ev.ret), at)):
        v = strip(v)
        nm = next((x for x in ("FullShuffle", "NoShuffle") if x in show(v, 5)), None)
        if v.k == "new" and nm:
            lits = tm.literals(g)
            sh = [l for l in lits if mentions_attr(l, "shuffle")]
            neg = any(strip(l).k == "not" for l in sh)
            R.ob("settings", f"{nm} when {'shuffling' if nm == 'FullShuffle' else 'not shuffling'}", (neg is (nm == "NoShuffle")) if sh else None, " and ".join(show(l, 3) for l in lits), f.where)
            for k in ("seed", "drop_last"):
                R.ob("settings", f"{nm}: {k}", mentions_attr(v, k), show(v, 4), f.where)
    # base loader
    f = P.func("streaming.dataloader.StreamingDataLoader.__init__")
    sup = [(e, cx) for e, cx in own_events(P, f) if e.kind == "call" and e.name == "__init__"]
    need(sup, "constructor of the base loader")
    for e, cx in sup:
        for p in ("batch_size", "num_workers", "collate_fn", "prefetch_factor"):
            v = e.kw.get(p)
            ok = v is not None and mentions(v, lambda x: x is mk("param", p))
            R.ob("settings", f"base loader: {p}", ok, show(v, 4) if v is not None else "not passed", e.where)
        R.ob("settings", "base loader: dataset", bool(e.args) and strip(e.args[0]) is mk("param", "dataset") or (strip(e.kw["dataset"]) is mk("param", "dataset") if "dataset" in e.kw else False), "", e.where)
    # which epoch the dataset is told
    f = P.func("streaming.dataloader.StreamingDataLoader.__iter__")
    evs = own_events(P, f)
    st = [(e, cx) for e, cx in evs if e.kind == "call" and e.name == "set_epoch"]
    R.must("settings", "loader tells the epoch", st, "set_epoch is not called", f.where)
    for e, cx in st:
        for restore in (False, True):
            atom = lambda x, r=restore: r if is_attr(x, "restore") else None
            if not live(cx, atom):
                R.ob("settings", f"epoch told to the dataset {'resumed' if restore else 'anew'}", restore, guards_str(cx), e.where)
                continue
            v = strip(spec(e.args[0], atom)) if e.args else None
            ks = [x for x in subterms(v) if is_attr(x, "current_epoch")] if v is not None else []
            want = ZERO if restore else ONE
            R.ob("settings", f"epoch told to the dataset {'resumed' if restore else 'anew'}", tm.sub(v, strip(ks[0])) is want if ks else (False if v is None or is_const(v) else None), show(v, 4) if v is not None else "", e.where)


def given(p, value):
    """the user passed True or False for p"""
    def atom(x):
        if x is p:
            return value
        if x.k in ("is", "eq") and p in x.a:
            o = x.a[0] if x.a[1] is p else x.a[1]
            return False if o is NONE else (value if o is TRUE else not value if o is FALSE else None)
        return None
    return atom


def slices(P, R):
    f = P.func(f"{DS}.__getitem__")
    seq, ev = evaluate(P, f, opaque={"_create_cache", "_create_shuffler", "_get_log_msg", "_get_chunk_index_from_index", "detect"}, policy=lambda a, b, d: d < 3 and b.cls is f.cls)
    evs = list(flow.walk(seq))
    R.unit(f.qual)
    ix = [e for e, c in evs if e.kind == "call" and e.name == "indices" and e.recv is not None]
    if not ix:
        R.ob("slice", "indexes of a slice", None, "not understood", f.where)
        return
    ind = strip(ix[0].term)
    rs = []
    for e, c in evs:
        for t in [e.term, e.value] + [l.iter for l in c.loops]:
            if isinstance(t, T):
                rs += [x for x in subterms(t) if x.k == "call" and fname(x) == "range" and mentions(x, lambda y: strip(y) is ind)]
    R.must("slice", "range of a slice", rs, "no range made", f.where)
    for x in rs[:1]:
        a = [strip(y) for y in x.a[1]]
        ok = [strip(y.a[1]) if y.k == "sub" and strip(y.a[0]) is ind else None for y in a]
        if a and a[0].k == "star":
            good = strip(a[0].a[0]) is ind
        else:
            good = ok == [ZERO, ONE, const(2)]
        R.ob("slice", "range of a slice", good, show(x, 4), f.where)
    arg = strip(ix[0].args[0]) if ix[0].args else None
    R.ob("slice", "length of the dataset", None if arg is None else arg.k == "call" and (fname(arg) == "len" or arg.a[0].k == "meth") or (False if is_const(arg) else None), show(arg, 3) if arg is not None else "", ix[0].where)
