"""C11: a resumed pass continues in the order of the interrupted one."""
from .common import *

DS = "streaming.dataset.StreamingDataset."
OPAQUE = {"_replay_sampling", "_replay_chunks_sampling", "_validate_state_dict", "_create_cache",
          "_find_chunks_per_workers_on_which_to_skip_deletion", "get_chunks_and_intervals_per_workers", "__call__"}


def check(P, R):
    R.rule("same-assignment", "a resumed pass computes the assignment of chunks with the recorded epoch and seed and the arguments of a fresh pass")
    R.rule("same-order", "resuming orders the samples of the current chunk with the call, and the arguments, of a fresh pass")
    R.rule("own-share", "resuming looks up the chunks, the intervals and the position of this worker, the position counted among the workers of its own process")
    R.rule("skip-exactly", "the samples skipped are the first ones of the order, as many as accounted to this worker, and the next chunk follows")
    R.rule("exhausted", "a worker that had consumed all its chunks is not given a chunk again")
    R.rule("replay-conserves", "replaying the sampling accounts every yielded sample to exactly one worker, batch by batch in rotation from the first worker")
    R.rule("replay-chunks", "replaying the chunks subtracts the size of a chunk's region and advances by one chunk as long as the position lies beyond it")
    R.rule("loader", "a loader that restores keeps its epoch, its counters and the loaded state, continues with the worker after the last one, and starts afresh in the next epoch")
    R.part(P, dataset, next_call, replay, replay_chunks, loader, workers_iter)


def is_loaded(l):
    return is_attr(strip(l), "_state_dict")


def arange_of(t):
    """arange(X[k][1], X[k][2]) -> (X, k)"""
    t = strip(t)
    if t.k == "call" and fname(t).endswith("arange") and len(t.a[1]) == 2:
        a, b = (strip(x) for x in t.a[1])
        if a.k == b.k == "sub" and a.a[0] is b.a[0] and a.a[1] is const(1) and b.a[1] is const(2):
            iv = strip(a.a[0])
            if iv.k == "sub":
                return strip(iv.a[0]), strip(iv.a[1])
    return None


def shuffler_calls(seq):
    return [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and len(e.args) + len(list(e.kw)) == 4 and (e.name == "shuffler" or is_attr(strip(e.fn) if isinstance(e.fn, T) else None, "shuffler") or (e.name == "__call__" and e.recv is not None and mentions_attr(e.recv, "shuffler")))]


def dataset(P, R):
    f = P.func(DS + "__iter__")
    R.unit(f.qual)
    R.unit(DS + "_resume")
    seq, ev = evaluate(P, f, opaque=OPAQUE)
    asg = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "get_chunks_and_intervals_per_workers"]
    need(asg, "computation of the assignment in __iter__")
    names = ["distributed_env", "num_workers", "batch_size", "current_epoch"]
    for e, c in asg:
        a = dict(zip(names, e.args), **{k: v for k, v in e.kw.items() if k})
        ep = strip(a.get("current_epoch", NONE))
        under = any(is_loaded(g) for g in c.guards)
        ok = False
        for g, v in galts(ep):
            loaded = under or any(is_loaded(x) for x in tm.literals(g))
            v = strip(v)
            if loaded:
                ok = is_key(v, "current_epoch") and mentions_attr(v, "_state_dict")
                if not ok:
                    break
            elif not is_attr(v, "current_epoch"):
                ok = False
                break
        R.ob("same-assignment", "epoch", ok, show(ep, 4), e.where)
        R.ob("same-assignment", "workers", is_attr(strip(a.get("num_workers", NONE)), "world_size") and mentions_attr(a["num_workers"], "worker_env") or is_key(strip(a.get("num_workers", NONE)), "num_workers"), show(a.get("num_workers", NONE), 4), e.where)
        R.ob("same-assignment", "processes", is_attr(strip(a.get("distributed_env", NONE)), "distributed_env"), show(a.get("distributed_env", NONE), 4), e.where)
        R.ob("same-assignment", "batch size", is_attr(strip(a.get("batch_size", NONE)), "batch_size"), show(a.get("batch_size", NONE), 4), e.where)
    # seed and drop_last of the shuffler
    made = [e for e, c in flow.walk(seq) if e.kind == "call" and (e.callee or "").split(".")[-1] in ("FullShuffle", "NoShuffle")]
    need(made, "construction of the shuffler", 2)
    for e in made:
        for i, k in ((1, "seed"), (2, "drop_last")):
            v = strip(e.arg(i, k) or NONE)
            ok = True
            for g, x in galts(v):
                x = strip(x)
                ok = ok and (is_key(x, k) or is_attr(x, k))
            R.ob("same-assignment", f"{k} of {e.callee.split('.')[-1]}", ok, show(v, 4), e.where)
    # own share
    env = {}
    for e, c in flow.walk(seq):
        if e.kind == "store" and e.attr in ("worker_chunks", "worker_intervals") and e.base.k == "self":
            v = strip(e.value)
            i = 0 if e.attr == "worker_chunks" else 1
            ok = v.k == "sub" and strip(v.a[0]).k == "sub" and strip(v.a[0]).a[1] is const(i) and mentions_call(v.a[0], "get_chunks_and_intervals_per_workers")
            R.ob("own-share", f"{e.attr} taken from the assignment", ok, show(v, 5), e.where)
            if ok:
                env.setdefault("rank", []).append((strip(v.a[1]), e))
    need(env.get("rank", []), "own share of the assignment", 2)
    ranks = {r for r, _ in env["rank"]}
    want = env["rank"][0][0]
    R.ob("own-share", "same worker number", len(ranks) == 1, "; ".join(show(r, 6) for r in ranks), env["rank"][0][1].where)
    gr, ws, rk = (lambda x: is_attr(strip(x), "global_rank")), (lambda x: is_attr(strip(x), "world_size")), (lambda x: is_attr(strip(x), "rank"))
    R.ob("own-share", "worker number", is_rank_formula(want), show(want, 6), env["rank"][0][1].where)
    # call of the shuffler while resuming
    sc = [(e, c) for e, c in shuffler_calls(seq)]
    need(sc, "ordering of the current chunk while resuming")
    for e, c in sc:
        names = ["array", "num_chunks", "current_epoch", "chunk_index"]
        a = dict(zip(names, e.args), **{k: v for k, v in e.kw.items() if k})
        r = arange_of(a.get("array", NONE))
        k = strip(a.get("chunk_index", NONE))
        if r is None:
            R.ob("same-order", "samples of the chunk", None if not mentions_call(a.get("array", NONE), "arange") else False, show(a.get("array", NONE), 5), e.where)
        else:
            R.ob("same-order", "samples of the chunk", r[1] is k and is_share(r[0], 1, want), show(a["array"], 6), e.where)
        n = strip(a.get("num_chunks", NONE))
        R.ob("same-order", "number of chunks", n.k == "call" and fname(n) == "len" and (is_share(strip(n.a[1][0]), 1, want) or is_share(strip(n.a[1][0]), 0, want)), show(n, 5), e.where)
        ep = strip(a.get("current_epoch", NONE))
        R.ob("same-order", "epoch", is_attr(ep, "current_epoch") or is_key(ep, "current_epoch"), show(ep, 4), e.where)
        R.ob("own-share", "position of this worker", is_pos(k, 0), show(k, 6), e.where)
        g = [strip(x) for x in c.guards]
        R.ob("exhausted", "chunk looked up", any(implies_ge(x, n, k, 1) for x in g), "the position may lie after the last chunk: " + guards_str(c)[-300:], e.where)
    # every use of the position as an index of the intervals
    for e, c in flow.walk(seq):
        if e.kind == "store" and e.attr == "upcoming_indexes" and e.base.k == "self":
            v = strip(e.value)
            if v.k == "list" and not v.a[0]:
                continue
            for x in [y for _, y in galts(v)]:
                x = strip(x)
                if x.k == "sub" and strip(x.a[1]).k == "slice":
                    lo, hi, st = (strip(y) if y is not None else NONE for y in slice3(x.a[1]))
                    src = strip(x.a[0])
                    ok = is_pos(lo, 1) and hi is NONE and st is NONE and any(src is strip(q.term) for q, _ in sc)
                    R.ob("skip-exactly", "samples already consumed", ok, show(x.a[1], 6), e.where)
                else:
                    R.ob("skip-exactly", "samples already consumed", False if any(x is strip(q.term) for q, _ in sc) else None, "nothing is skipped: " + show(x, 4), e.where)
    # the chunk after the current one follows
    if any("_resume" in f2 for f2 in P.funcs):
        rs = P.func(DS + "_resume")
        rseq, _ = evaluate(P, rs, opaque=OPAQUE)
    else:
        rseq = seq
    st_ev = [e for e, c in flow.walk(rseq) if e.kind == "store" and e.attr == "worker_next_chunk_index" and e.base.k == "self"]
    out = flow.Typestate(lambda st, e: [strip(e.value)] if e in st_ev else [st]).run(rseq, [0])
    calls = shuffler_calls(rseq)
    if calls:
        k = strip(dict(zip(["array", "num_chunks", "current_epoch", "chunk_index"], calls[0][0].args), **calls[0][0].kw)["chunk_index"])
        for s, *_ in out["norm"]:
            R.ob("skip-exactly", "next chunk", isinstance(s, T) and strip(tm.sub(s, k)) is const(1), show(s, 5) if isinstance(s, T) else "not positioned", calls[0][0].where)
    # replay calls
    for nme, what in (("_replay_sampling", "yielded samples"), ("_replay_chunks_sampling", "chunks")):
        cs = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and (e.callee or "").endswith(nme)]
        need(cs, nme)
        for e, c in cs:
            if nme == "_replay_sampling":
                a = bind_args(P, "streaming.dataset._replay_sampling", e)
                for k in ("num_samples_yielded", "batch_size"):
                    R.ob("own-share", f"replayed {k}", is_key(strip(a.get(k, NONE)), k), show(a.get(k, NONE), 4), e.where)
                w = strip(a.get("num_workers", NONE))
                R.ob("own-share", "replayed num_workers", is_key(w, "num_workers") or is_worker_count(w), show(w, 4), e.where)
            else:
                a = bind_args(P, "streaming.dataset._replay_chunks_sampling", e)
                wi = strip(a.get("workers_intervals", NONE))
                R.ob("own-share", "intervals of the workers of this process", local_share(wi), show(wi, 8), e.where)
                R.ob("own-share", "replayed positions", mentions_call(a.get("indexes", NONE), "_replay_sampling"), show(a.get("indexes", NONE), 3), e.where)


def slice3(s):
    s = strip(s)
    a = list(s.a)
    while len(a) < 3:
        a.append(NONE)
    return a[:3]


def is_worker_count(x):
    x = strip(x)
    return (is_attr(x, "world_size") and mentions_attr(x, "worker_env")) or is_key(x, "num_workers") or is_attr(x, "num_workers")


def is_rank_formula(t):
    """process rank * workers per process + worker number"""
    t = strip(t)
    rk = [x for x in subterms(t) if is_attr(x, "rank")]
    gr = [x for x in subterms(t) if is_attr(x, "global_rank")]
    if not rk or not gr:
        return False
    d = strip(tm.sub(t, rk[0]))
    for w in [x for x in subterms(t) if is_worker_count(x)]:
        if strip(tm.sub(d, tm.mul(gr[0], w))) is ZERO:
            return True
    return False


def is_share(t, i, rank):
    """get_chunks_and_intervals(...)[i][rank], or the attribute it was stored in"""
    t = strip(t)
    if is_attr(t, "worker_intervals" if i else "worker_chunks"):
        return True
    return t.k == "sub" and strip(t.a[1]) is rank and strip(t.a[0]).k == "sub" and strip(t.a[0]).a[1] is const(i)


def is_pos(t, i):
    """_replay_chunks_sampling(...)[i][worker_env.rank]"""
    t = strip(t)
    return t.k == "sub" and is_attr(strip(t.a[1]), "rank") and mentions_attr(t.a[1], "worker_env") and strip(t.a[0]).k == "sub" and strip(t.a[0]).a[1] is const(i) and fname(strip(strip(t.a[0]).a[0])).endswith("_replay_chunks_sampling")


def local_share(t):
    """{i: intervals[first + i] for the workers of this process}"""
    t = strip(t)
    if t.k == "call" and fname(t) == "dict" and len(t.a[1]) == 1:
        t = strip(t.a[1][0])
        if t.k == "call" and fname(t) == "enumerate":
            s = strip(t.a[1][0])
            if s.k == "sub" and strip(s.a[1]).k == "slice":
                lo, hi, st = slice3(s.a[1])
                return is_first(lo) and is_span(lo, hi) and st is NONE
        return None
    if t.k != "comp":
        return None
    body = [x for x in t.a if isinstance(x, T)]
    subs = [x for x in subterms(t) if x.k == "call" and fname(x) == "range"]
    for r in subs:
        a = r.a[1]
        idx = mk("idx", r) if False else None
        if len(a) == 2:
            keyed = any(x.k == "idx" and x.a[0] is r for x in subterms(t)) and any(x.k == "sub" and x.a[1].k == "elem" and x.a[1].a[0] is r for x in subterms(t))
            return bool(is_first(a[0]) and is_span(a[0], a[1]) and keyed)
        if len(a) == 1:
            offs = [x.a[1] for x in subterms(t) if x.k == "sub" and mentions(x.a[1], lambda y: y.k in ("elem", "idx") and y.a[0] is r)]
            es = [y for x in offs for y in subterms(x) if y.k in ("elem", "idx") and y.a[0] is r]
            return bool(is_worker_count(a[0]) and offs and all(is_first(tm.sub(x, es[0])) for x in offs))
    return None


def is_first(t):
    t = strip(t)
    gr = [x for x in subterms(t) if is_attr(x, "global_rank")]
    return any(strip(tm.sub(t, tm.mul(g, w))) is ZERO for g in gr[:1] for w in subterms(t) if is_worker_count(w))


def is_span(lo, hi):
    return is_worker_count(strip(tm.sub(hi, lo)))


def next_call(P, R):
    f = P.func(DS + "__next__")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"__getitem__", "__call__"})
    sc = shuffler_calls(seq)
    need(sc, "ordering of a chunk in __next__")
    for e, c in sc:
        names = ["array", "num_chunks", "current_epoch", "chunk_index"]
        a = dict(zip(names, e.args), **{k: v for k, v in e.kw.items() if k})
        r = arange_of(a.get("array", NONE))
        k = strip(a.get("chunk_index", NONE))
        R.ob("same-order", "fresh: samples of the chunk", None if r is None else is_attr(r[0], "worker_intervals") and r[1] is k and is_attr(k, "worker_next_chunk_index"), show(a.get("array", NONE), 5), e.where)
        n = strip(a.get("num_chunks", NONE))
        R.ob("same-order", "fresh: number of chunks", is_attr(n, "num_chunks") or (fname(n) == "len" and mentions_attr(n, "worker_chunks", "worker_intervals")), show(n, 4), e.where)
        R.ob("same-order", "fresh: epoch", is_attr(strip(a.get("current_epoch", NONE)), "current_epoch"), show(a.get("current_epoch", NONE), 4), e.where)
    # fresh pass: positions start at zero and num_chunks is the worker's own
    g = P.func(DS + "__iter__")
    seq, _ = evaluate(P, g, opaque=OPAQUE | {"_resume"})
    for attr, ok in (("worker_next_chunk_index", lambda v: v is ZERO), ("global_index", lambda v: v is ZERO),
                     ("num_chunks", lambda v: v.k == "call" and fname(v) == "len" and mentions_call(v, "get_chunks_and_intervals_per_workers")),
                     ("upcoming_indexes", lambda v: v.k == "list" and not v.a[0])):
        st = {}

        def step(s, e, attr=attr):
            return [strip(e.value)] if e.kind == "store" and e.attr == attr and e.base.k == "self" else [s]

        def assume(s, cond):
            return None if any(is_loaded(l) for l in tm.literals(cond)) else s

        out = flow.Typestate(step, assume).run(seq, [0])
        vals = {s for s, *_ in out["norm"] | out["ret"]}
        R.ob("same-order", f"fresh: start of {attr}", bool(vals) and all(isinstance(v, T) and ok(v) for v in vals), "; ".join(show(v, 4) if isinstance(v, T) else "not set" for v in vals), g.where)


def all_loops(seq):
    for it in seq.items:
        if isinstance(it, Loop):
            yield it
            yield from all_loops(it.body)
        elif isinstance(it, If):
            yield from all_loops(it.then)
            yield from all_loops(it.els)
        elif isinstance(it, (With, Inline)):
            yield from all_loops(it.body)
        elif isinstance(it, Try):
            yield from all_loops(it.body)


def replay(P, R):
    f = P.func("streaming.dataset._replay_sampling")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    total, bs, nw = (mk("param", p) for p in f.params[:3])
    lp = [l for l in all_loops(seq) if l.kind == "while"]
    ups = [(e, c) for e, c in flow.walk(seq) if e.kind == "setitem"]
    if len(lp) != 1 or not lp[0].carried:
        R.ob("replay-conserves", "replay loop", None, "not written as one loop", f.where)
        return
    L = lp[0]
    D = N = W = None
    for n, (i, nx) in L.carried.items():
        if nx.k == "upd":
            D = n
        elif mentions(i, lambda x: x is total) and mentions(nx, lambda x: x is phi_of(L, n)):
            N = n
        elif is_const(i):
            W = n
    if D is not None and N is None:
        # the rest isn't reduced by what was handed out, it is replaced
        lost = [n for n, (i, nx) in L.carried.items() if mentions(i, lambda x: x is total) and strip(nx).k in ("param", "const")]
        if lost:
            R.ob("replay-conserves", "as many taken from the rest", False, f"rest becomes {show(L.carried[lost[0]][1], 4)}", f.where)
            return
    if D is None or N is None or strip(L.carried[N][1]).k == "ite":
        R.ob("replay-conserves", "replay loop", None, f"counters not recognised among {sorted(L.carried)}", f.where)
        return
    dphi, nphi = phi_of(L, D), phi_of(L, N)
    init, nxt = L.carried[D]
    k, d = nxt.a[1], tm.sub(nxt.a[2], mk("sub", dphi, nxt.a[1], 0))
    ninit, nnext = L.carried[N]
    R.ob("replay-conserves", "a full batch to one worker", strip(tm.sub(strip(d), bs)) is ZERO, f"adds {show(d, 5)}", f.where)
    R.ob("replay-conserves", "as many taken from the rest", strip(tm.sub(tm.sub(nphi, nnext), d)) is ZERO, f"rest becomes {show(nnext, 5)}, worker gets {show(d, 5)}", f.where)
    if W is not None:
        wphi = phi_of(L, W)
        wi, wn = L.carried[W]
        R.ob("replay-conserves", "rotation starts at the first worker", strip(wi) is ZERO, show(wi, 4), f.where)
        form = wn.k in ("op", "add") or is_const(wn) or strip(wn) is strip(wphi)
        R.ob("replay-conserves", "rotation", None if not form else strip(wn) is strip(mk("op", "Mod", tm.add(wphi, ONE), nw)) and strip(k) is strip(wphi), f"{show(wn, 5)}, batch given to {show(k, 4)}", f.where)
    # what every worker got before the rest was distributed
    v = None
    if init.k == "comp":
        for x in init.a:
            if isinstance(x, T) and x.k == "tuple" and len(x.a[0]) == 2:
                v = x.a[0][1]
    if v is None:
        R.ob("replay-conserves", "complete rounds", None, show(init, 4), f.where)
    else:
        R.ob("replay-conserves", "complete rounds", strip(tm.sub(ninit, tm.sub(total, tm.mul(nw, v)))) is ZERO, f"every worker {show(v, 5)}, rest {show(ninit, 6)}", f.where)
        R.ob("replay-conserves", "whole batches per round", strip(v) is strip(tm.mul(bs, fdiv(total, tm.mul(bs, nw)))), show(v, 6), f.where)
    # guards: a full batch is given only when the rest holds one; the rest goes to the worker whose turn it is
    for e, c in ups:
        if e.base is dphi or strip(e.base) is strip(dphi):
            delta = tm.sub(e.value, mk("sub", dphi, e.idx, 0))
            if strip(delta) is strip(d):
                R.ob("replay-conserves", "batch given only when complete", any(implies_ge(g, nphi, bs) for g in c.guards), guards_str(c), e.where)
            else:
                R.ob("replay-conserves", "rest", strip(tm.sub(delta, nphi)) is ZERO and strip(e.idx) is strip(k), f"{show(delta, 5)} to {show(e.idx, 4)}", e.where)
                R.ob("replay-conserves", "rest smaller than a batch", any(implies_ge(g, bs, nphi) for g in c.guards), guards_str(c), e.where)


def fdiv(a, b):
    return mk("op", "FloorDiv", a, b)


def phi_of(L, name):
    for x in [y for i, n in L.carried.values() for y in subterms(n)] + [y for e, c in flow.walk(L.body) for t in (e.value, e.idx, e.base) if isinstance(t, T) for y in subterms(t)]:
        if x.k == "phi" and x.a[-1] == name and x.a[0] == L.lid:
            return x
    return mk("phi", L.lid, name)


def replay_chunks(P, R):
    f = P.func("streaming.dataset._replay_chunks_sampling")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    ups = [(e, c) for e, c in flow.walk(seq) if e.kind == "setitem" and c.loops]
    dec = [(e, c) for e, c in ups if mentions(tm.sub(e.value, mk("sub", e.base, e.idx, 0)), lambda x: x.k in ("elem", "sub")) and mentions(e.value, lambda x: strip(x) is strip(mk("sub", e.base, e.idx, 0)))]
    inc = [(e, c) for e, c in ups if strip(tm.sub(e.value, mk("sub", e.base, e.idx, 0))) is ONE]
    if not dec or not inc:
        R.ob("replay-chunks", "positions", None, f"{len(dec)} subtractions, {len(inc)} steps", f.where)
        return
    for e, c in dec:
        cur = mk("sub", e.base, e.idx, 0)
        size = strip(tm.sub(cur, e.value))
        els = [x for x in subterms(size) if x.k == "sub" and tm.is_num(x.a[1])]
        iv = els[0].a[0] if els else cur
        ok = strip(tm.sub(size, tm.sub(mk("sub", iv, const(2), 0), mk("sub", iv, const(1), 0)))) is ZERO
        R.ob("replay-chunks", "size of the region", ok, show(size, 5), e.where)
        R.ob("replay-chunks", "position beyond the chunk", any(implies_ge(g, cur, size) for g in c.guards), guards_str(c), e.where)
        L = c.loops[-1]

        def assume(st, cond, size=size, cur=cur):
            return None if any(implies_ge(g, cur, size) for g in tm.literals(cond)) else st

        out = flow.Typestate(lambda st, x: [st], assume).run(L.body, [0])
        R.ob("replay-chunks", "stops at the chunk of the position", not out["norm"] and not out["cont"], "later chunks are still counted", e.where)

        # step and subtraction go together
        def step(st, x):
            d, i = st
            if any(x is y for y, _ in dec):
                d = min(2, d + 1)
            if any(x is y for y, _ in inc):
                i = min(2, i + 1)
            return [(d, i)]

        out = flow.Typestate(step).run(L.body, [(0, 0)])
        sts = {s for k in ("norm", "cont", "brk") for s, *_ in out[k]}
        R.ob("replay-chunks", "one chunk further", all(a == b for a, b in sts), str(sorted(sts)), e.where)


def loader(P, R):
    f = P.func("streaming.dataloader.StreamingDataLoader.__iter__")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"reset_state_dict", "set_epoch"})

    def restore(l, pos=True):
        l = strip(l)
        return is_attr(l, "restore") if pos else (l.k == "not" and is_attr(strip(l.a[0]), "restore"))

    RESET = {"_latest_worker_idx", "_worker_idx", "_worker_idx_iter", "current_epoch", "_num_samples_yielded_combined", "_num_samples_yielded_streaming"}

    def reset(e):
        if e.kind == "call" and e.name == "reset_state_dict":
            return "reset_state_dict"
        if e.kind == "store" and e.attr in RESET and e.base.k == "self" and not restored_step(e):
            return e.attr
        return None

    def restored_step(e):
        return e.attr in ("_latest_worker_idx",) and mentions_call(e.value, "next") or (e.attr == "_num_samples_yielded_streaming" and mentions_attr(e.value, "_num_samples_yielded_streaming")) 

    hit = []

    def step(st, e):
        r = reset(e)
        if r:
            hit.append((r, e))
            return [st | {r}]
        if e.kind == "yield":
            return [st]
        return [st]

    def only(pos):
        def assume(st, cond):
            for l in tm.literals(cond):
                if restore(l, not pos):
                    return None
            return st
        return assume

    # outside the loop over the batches only
    flow.Typestate(step, only(True)).run(seq, [frozenset()])
    seen = {r for r, e in hit}
    for nme in sorted(RESET | {"reset_state_dict"}):
        R.ob("loader", f"restored: {nme} kept", nme not in seen, "overwritten although restoring", f.where)
    hit.clear()
    first = {}

    def step2(st, e):
        r = reset(e)
        if e.kind == "iter" or e.kind == "yield":
            first.setdefault("at", set()).add(st)
        return [st | {r}] if r else [st]

    out = flow.Typestate(step2, only(False)).run(seq, [frozenset()])
    ends = {s for k in ("norm", "ret") for s, *_ in out[k]}
    for nme in sorted(RESET | {"reset_state_dict"}):
        R.ob("loader", f"fresh: {nme} reset", bool(ends) and all(nme in s for s in ends), "kept from the previous epoch", f.where)
    # the next epoch starts afresh
    out = flow.Typestate(lambda st, e: [strip(e.value)] if e.kind == "store" and e.attr == "restore" else [st]).run(seq, [0])
    ends = {s for k in ("norm", "ret") for s, *_ in out[k]}
    R.ob("loader", "restoring ends with the epoch", bool(ends) and all(s is FALSE for s in ends), str([show(s) if isinstance(s, T) else s for s in ends]), f.where)
    # set_epoch receives the loader's epoch before the batches
    se = [e for e, c in flow.walk(seq) if e.kind == "call" and e.name == "set_epoch"]
    need(se, "set_epoch in the loader")
    for e in se:
        R.ob("loader", "epoch of the dataset", all(is_attr(strip(v), "current_epoch") or strip(tm.sub(strip(v), ONE)).k == "attr" for _, v in galts(e.args[0])), show(e.args[0], 4), e.where)
    seen, bad = before(seq, lambda e: e.kind == "call" and e.name == "set_epoch", lambda e: e.kind == "yield")
    R.ob("loader", "epoch set before the first batch", bool(seen) and not bad, "a batch is produced under the old epoch", f.where)
    # loading
    g = P.func("streaming.dataloader.StreamingDataLoader.load_state_dict")
    R.unit(g.qual)
    seq, ev = evaluate(P, g, opaque={"load_state_dict", "_set_use_streaming_dataloader", "__len__"})
    want = {"current_epoch": "current_epoch", "_num_samples_yielded_streaming": "num_samples_yielded", "_num_samples_yielded_combined": "num_samples_yielded"}
    for attr, key in want.items():
        st = [e for e, c in flow.walk(seq) if e.kind == "store" and e.attr == attr and e.base.k == "self"]
        R.ob("loader", f"loads {attr}", bool(st) and all(is_key(peel(strip(e.value)), key) or mentions_key(e.value, key) for e in st), "; ".join(show(e.value, 4) for e in st) or "not restored", g.where)
    st = [e for e, c in flow.walk(seq) if e.kind == "store" and e.attr == "_latest_worker_idx" and e.base.k == "self"]
    ok = bool(st) and all(nextworker(strip(e.value)) for e in st)
    R.ob("loader", "continues with the next worker", ok, "; ".join(show(e.value, 5) for e in st), g.where)
    ld = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "load_state_dict" and mentions_attr(e.recv, "dataset")]
    need(ld, "state given to the dataset")
    for what, comb in (("a dataset", False), ("a combined dataset", True)):
        out = flow.Typestate(lambda st, e: [1] if any(e is x for x, _ in ld) else [st], under(midway(comb, None))).run(seq, [0])
        ends = {s for k in ("norm", "ret") for s, *_ in out[k]}
        R.ob("loader", f"{what} gets its state", bool(ends) and 0 not in ends, "not given to the dataset" if 0 in ends else "", g.where)
    for e, c in ld:
        comb = any(mentions(x, lambda y: y.k == "cls" and y.a[0].endswith("CombinedStreamingDataset")) and strip(x).k != "not" for x in c.guards)
        v = strip(e.args[0])
        R.ob("loader", "state of a combined dataset" if comb else "state of the dataset", v is mk("param", g.params[1]) if comb else is_key(v, "dataset"), show(v, 4), e.where)
    # a position within an epoch makes the next iteration go on from it
    for what, comb, over in (("a dataset", False, None), ("a combined dataset that is read to its end", True, True), ("a combined dataset with weights", True, False)):
        out = flow.Typestate(lambda st, e: [strip(e.value)] if e.kind == "store" and e.attr == "restore" and e.base.k == "self" else [st],
                             under(midway(comb, over))).run(seq, [0])
        ends = {s for k in ("norm", "ret") for s, *_ in out[k]}
        bad = [s for s in ends if s is not TRUE]
        ok = True if ends and not bad else False if ends and all(s == 0 or s is FALSE for s in bad) else None
        R.ob("loader", f"restores {what}", ok, "the loaded position is given up" if bad else "", g.where)
    # a combined dataset takes over the position only when it knows that a loader reads it
    q = P.func("streaming.combined.CombinedStreamingDataset.load_state_dict")
    R.unit(q.qual)
    s2, _ = evaluate(P, q, opaque={"load_state_dict"})
    st = [(e, c) for e, c in flow.walk(s2) if e.kind == "store" and e.attr == "_num_samples_yielded" and e.base.k == "self"]
    need(st, "position of a combined dataset")
    flags = {x.a[1] for e, c in st for gd in c.guards for x in subterms(strip(gd)) if x.k == "attr" and "loader" in str(x.a[1])}
    R.ob("loader", "position of a combined dataset", all(is_key(peel(strip(e.value)), "num_samples_yielded") for e, c in st), "; ".join(show(e.value, 4) for e, c in st), q.where)
    if flags:
        def flagged(st, e):
            if e.kind == "call" and e.name == "_set_use_streaming_dataloader":
                return [bool(e.args) and strip(e.args[0]) is TRUE]
            if e.kind == "store" and e.attr in flags:
                return [strip(e.value) is TRUE]
            if e.kind == "call" and e.name == "load_state_dict" and mentions_attr(e.recv, "dataset"):
                late.append((st, e))
            return [st]

        late = []
        flow.Typestate(flagged, under(midway(True, None))).run(seq, [False])
        if late:
            R.ob("loader", "a combined dataset is told that a loader reads it before its state is loaded", all(x for x, e in late), "the position is left out of what is loaded", late[0][1].where)
    # saving
    h = P.func("streaming.dataloader.StreamingDataLoader.state_dict")
    R.unit(h.qual)
    seq, ev = evaluate(P, h, opaque={"state_dict"})
    n = 0
    for e, c in flow.walk(seq):
        if e.kind == "return" and not e.inlined:
            for _, v in galts(e.value):
                v = strip(v)
                if v.k != "dict":
                    R.ob("loader", "saved state", None, show(v, 3), e.where)
                    continue
                n += 1
                for k, m in (("current_epoch", "current_epoch"), ("latest_worker_idx", "_latest_worker_idx")):
                    x = dict_get(v, k)
                    R.ob("loader", f"saves {k} ({n})", x is not None and is_attr(strip(x), m), show(x, 4) if x is not None else "missing", e.where)
                x = dict_get(v, "num_samples_yielded")
                R.ob("loader", f"saves num_samples_yielded ({n})", x is not None and mentions_attr(x, "_num_samples_yielded_streaming", "_num_samples_yielded_combined"), show(x, 4) if x is not None else "missing", e.where)
                x = dict_get(v, "dataset")
                R.ob("loader", f"saves dataset ({n})", x is not None and mentions_call(x, "state_dict") and mentions_attr(x, "num_workers") and mentions_attr(x, "batch_size"), show(x, 4) if x is not None else "missing", e.where)
    need(range(n), "saved loader states", 1)


def nextworker(v):
    if v.k == "op" and v.a[0] == "Mod":
        v = strip(v.a[1])
    d = strip(tm.sub(v, ONE))
    return is_key(d, "latest_worker_idx")


def midway(comb, over):
    """a position of 3 samples in an epoch of 10"""
    def num(x):
        if x.k == "call" and fname(x) in ("len", "__len__") or x.k == "call" and x.a[0].k == "meth" and x.a[0].a[1] in ("__len__", "get_len"):
            return const(10) if mentions_attr(x, "dataset") else const(1)
        if x.k == "call" and fname(x) == "sum" or x.k == "attr" and "num_samples_yielded" in str(x.a[1]) or x.k == "sub" and is_key(x, "num_samples_yielded"):
            return const(3)
        return None

    def atom(x):
        if x.k == "isinst":
            t = str(x)
            return comb if "Combined" in t else (not comb) if "StreamingDataset" in t else None
        if x.k == "attr" and x.a[1] in ("_iterate_over_all", "iterate_over_all"):
            return over
        if x.k in ("lt", "le", "eq"):
            m = {}
            for y in subterms(x):
                n = num(y)
                if n is not None:
                    m[y] = n
            v = tm.subst(x, {k: n for k, n in m.items() if not any(k is not z and contains(z, k) for z in m)})
            return True if v is TRUE else False if v is FALSE else None
        return None
    return atom


def latest(g, w):
    return {x: const(w) for x in subterms(strip(g)) if is_attr(x, "_latest_worker_idx")}


def workers_iter(P, R):
    f = P.func("streaming.dataloader._StreamingMultiProcessingDataLoaderIter.__init__")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    st = [(e, c) for e, c in flow.walk(seq) if e.kind == "store" and e.attr == "_indexes"]
    need(st, "first workers of a resumed epoch")
    for n, (e, c) in enumerate(st):
        for g, v in galts(e.value):
            for x in c.guards:
                g = tm.and_(strip(g), strip(x))
            v = strip(peel(v))
            if v.k == "list" and not v.a[0]:
                # no worker is put first only when the last pass ended with the last worker
                later = [x for x, xc in st[n + 1:] if xc.guards]
                left = [w for w in (1, 2, 3) if tm.subst(strip(g), latest(g, w)) is not FALSE]
                if left and later:  # replaced in some cases
                    R.ob("loader", "first workers of a resumed epoch, none", None, "", e.where)
                    continue
                R.ob("loader", "first workers of a resumed epoch, none", True if not left else False if any(tm.subst(strip(g), latest(g, w)) is TRUE for w in left) else None, f"starts with worker 0 when {show(g, 4)}", e.where)
                continue
            ok = v.k == "call" and fname(v) == "range" and len(v.a[1]) == 2 and is_attr(strip(v.a[1][0]), "_latest_worker_idx") and is_attr(strip(v.a[1][1]), "num_workers")
            R.ob("loader", "first workers of a resumed epoch", ok if fname(v) == "range" else None, show(v, 4), e.where)
    f = P.func("streaming.dataloader._StreamingMultiProcessingDataLoaderIter._try_put_index")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    pops = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name in ("pop", "popleft") and mentions_attr(e.recv, "_indexes")]
    need(pops, "order of the first workers")
    for e, c in pops:
        R.ob("loader", "workers in order", e.name == "popleft" or (len(e.args) == 1 and strip(e.args[0]) is ZERO), "takes the last worker first", e.where)
        R.ob("loader", "only when restoring", any(is_attr(strip(g), "restore") for g in c.guards), guards_str(c), e.where)
        used = [x for x, _ in flow.walk(seq) if x.kind == "call" and x.name == "put" and mentions(x.recv, lambda y: y is e.term)]
        R.ob("loader", "task sent to that worker", bool(used), "the batch is requested from another worker", e.where)
