"""C30: a cache filled through a data loader holds every item once, and reading it yields every item once."""
from .c13 import counters, is_assert
from .common import *

BS = "streaming.sampler.CacheBatchSampler"
DLM = "streaming.dataloader."
TURNS = "__iter_indices_per_workers__"


def check(P, R):
    R.rule("choice", "an unfilled cache is written from the items in their order, a filled one is read chunk by chunk, each on one rank or on many")
    R.rule("shares", "the shares of ranks and workers adjoin: the first starts at the first item, each ends where the next one starts, the last ends with the last item")
    R.rule("batches", "a share is cut into adjoining batches that cover it")
    R.rule("turns", "batches are taken from the workers in turn, in order, until none is left; only empty ones at the end are dropped")
    R.rule("chunks", "a filled cache is read in whole chunks: each chunk goes to one rank and one worker, with its interval, and every position of it is read")
    R.rule("items", "an item is written under its index while the cache isn't filled, and read from the cache once it is")
    R.rule("finish", "every worker finishes its cache, and the partial indexes are merged once, when the whole pass was read; those of a broken off pass are dropped")
    R.rule("wired", "the sampler and the loader get what was asked for")
    R.part(P, roles, cut, turns, from_chunks, items, finish_single, finish_multi, finish_worker, wiring)


def is_new(y, name):
    return y.k == "new" and isinstance(y.a[0], (str, T)) and str(y.a[0] if isinstance(y.a[0], str) else show(y.a[0], 2)).endswith(name) or y.k == "call" and (fname(y).endswith(name) or show(y.a[0], 2).endswith(name))


def fillscene(filled=None, single=None):
    def atom(x):
        if x.k == "attr" and x.a[1] == "filled":
            return filled
        if x.k == "eq" and any(mentions_attr(y, "_num_replicas") for y in x.a if isinstance(y, T)) and any(tm.is_num(y) for y in x.a if isinstance(y, T)):
            return single
        if x.k in ("lt", "le") and mentions_attr(x, "_num_replicas") and single is not None:
            m = {strip(y): const(1 if single else 3) for y in subterms(x) if is_attr(strip(y), "_num_replicas")}
            r = tm.subst(x, m)
            return True if r is TRUE else False if r is FALSE else None
        return None
    return atom


def role(P, filled, single):
    """the methods that make the batches in a scenario"""
    f = P.func(f"{BS}.__iter__")
    at = fillscene(filled, single)
    seq, ev = evaluate(P, f, policy=lambda *a: False)
    out = set()
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.recv is not None and strip(e.recv).k == "self" and not any(truth3(g, at) is False for g in c.guards):
            out.add(e.name)
    cls = P.cls(BS)
    return [cls.find(n) for n in sorted(out) if cls.find(n) is not None]


def roles(P, R):
    f = P.func(f"{BS}.__iter__")
    R.unit(f.qual)
    for filled in (False, True):
        for single in (True, False):
            gs = role(P, filled, single)
            what = f"{'filled' if filled else 'unfilled'} cache, {'one rank' if single else 'several ranks'}"
            if len(gs) != 1:
                R.ob("choice", what, None if gs else False, ", ".join(g.name for g in gs) or "nothing", f.where)
                continue
            g = gs[0]
            R.unit(g.qual)
            seq, ev = evaluate(P, g, opaque={"_chunk_list", TURNS}, policy=lambda a, b, d: d < 3 and b.cls is g.cls)
            reads = any(e.kind == "call" and e.name == "get_chunk_intervals" for e, c in flow.walk(seq))
            splits = any(is_attr(x, "_dataset_size") for t in terms_in(seq) for x in subterms(t))
            ranked = any(is_attr(x, "_global_rank") for t in terms_in(seq) for x in subterms(t))
            R.ob("choice", what, reads == filled and (filled or splits) and (single or ranked), f"{g.name} {'reads the intervals of the cache' if reads else 'counts the items of the dataset'}{'' if ranked else ', on one rank'}", g.where)
            if reads != filled:
                continue
            if not filled:
                shares(P, R, g, seq, single)
                handed(P, R, g, seq)


def terms_in(seq):
    for e, c in flow.walk(seq):
        yield from e.args
        yield from c.guards
        for v in (e.recv, e.value, e.idx):
            if isinstance(v, T):
                yield v


def attr_is(t, *names):
    t = strip(t)
    return t.k == "attr" and t.a[1] in names


def adjoining(lo, hi, var, n, last, total):
    """lo(0) = 0, hi(k) = lo(k+1), hi(n-1) = total"""
    lo, hi = strip(lo), strip(hi)
    first = tm.subst(lo, {var: ZERO})
    one = tm.sub(n, const(1))
    nxt = tm.subst(lo, {var: tm.add(var, const(1))})

    def cond(v):
        def at(x):
            if x.k in ("eq", "lt", "le") and (mentions(x, lambda y: y is var)):
                r = tm.subst(x, {var: one if v else tm.sub(one, const(1))})
                d = tm.lin_const(tm.sub(r.a[0], r.a[1])) if r.k == "eq" else None
                if r is TRUE or r is FALSE:
                    return r is TRUE
                if d is not None and tm.is_num(tm.sub(r.a[0], r.a[1])):
                    return d == 0
            return None
        return at
    end = strip(spec(hi, cond(True)))
    mid = strip(spec(hi, cond(False)))
    end_ok = strip(tm.subst(end, {var: one}))
    a = strip(first) is ZERO
    b = strip(tm.sub(mid, nxt)) is ZERO
    c = any(strip(tm.sub(end_ok, t)) is ZERO for t in total)
    return a, b, c, end


def shares(P, R, g, seq, single):
    n = 0
    what = "one rank" if single else "several ranks"
    seen = set()
    for e, c in flow.walk(seq):
        if e.kind != "call" or e.name not in ("append", "extend") or not e.args or not c.loops:
            continue
        x = strip(e.args[0])
        if x.k != "sub" or strip(x.a[1]).k != "slice" or x in seen:
            continue
        seen.add(x)
        lvl = []
        while x.k == "sub" and strip(x.a[1]).k == "slice":
            lvl.append((x, strip(x.a[0]), strip(x.a[1])))
            x = strip(x.a[0])
        whole = peel(x)
        n += 1
        base = whole.k == "call" and fname(whole) == "range" and len(whole.a[1]) == 1 and attr_is(whole.a[1][0], "_dataset_size")
        R.ob("shares", f"{what}: the shares are cut from all items", base or None, show(x, 4), e.where)
        inits = {strip(k): strip(v[0]) for k, v in phi_inits(seq).items()}
        for i, (t, b, s) in enumerate(lvl):
            names = ("_num_workers",) if i == 0 else ("_num_replicas",)
            who = "workers" if i == 0 else "ranks"
            lo = strip(s.a[0]) if isinstance(s.a[0], T) else ZERO
            hi = s.a[1] if isinstance(s.a[1], T) else None
            if lo is NONE:
                lo = ZERO
            if hi is None or hi is NONE:
                R.ob("shares", f"{what}: shares of the {who}", None, show(t, 4), e.where)
                continue
            hi = strip(hi)
            m = {y: inits[y] for y in set(subterms(lo)) | set(subterms(hi)) if y in inits}
            if m:
                lo, hi = strip(tm.subst(lo, m)), strip(tm.subst(hi, m))
            vs = {y for y in subterms(lo) if y.k == "idx"} | ({y for y in subterms(lo) if attr_is(y, "_global_rank")} if i else set())
            vs = {y for y in vs if not any(o is not y and contains(o, y) for o in vs)}
            if i:
                vs2 = {y for y in vs if y.k == "idx" and mentions_attr(y.a[0], *names)} or vs
                vs = vs2
            else:
                vs = {y for y in vs if mentions_attr(y, *names)}
            if len(vs) != 1:
                R.ob("shares", f"{what}: shares of the {who}", None if vs or lo.k != "const" else False, show(t, 5), e.where)
                continue
            var = vs.pop()
            cnt = None
            if var.k == "idx":
                r = peel(strip(var.a[0]))
                cnt = strip(r.a[1][0]) if r.k == "call" and fname(r) == "range" and len(r.a[1]) == 1 else None
                if cnt is not None and not attr_is(cnt, *names):
                    R.ob("shares", f"{what}: a share for each of the {who}", False, f"{show(cnt, 3)} share(s)", e.where)
                    continue
            else:
                cnt = next((strip(y) for y in subterms(hi) if attr_is(y, *names)), None)
            if cnt is None:
                R.ob("shares", f"{what}: shares of the {who}", None, show(t, 5), e.where)
                continue
            total = []
            if peel(b).k == "call" and fname(peel(b)) == "range" and peel(b).a[1]:
                total.append(strip(peel(b).a[1][0]))
            for y in subterms(hi):
                if y.k == "call" and fname(y) == "len" and y.a[1] and strip(tm.subst(strip(y.a[1][0]), m) if m else y.a[1][0]) in (strip(b), strip(tm.subst(b, m)) if m else strip(b)):
                    total.append(y)
            # a slice is cut off at the end of its list, and no list here is longer than the dataset
            total += [strip(y) for y in subterms(hi) if attr_is(y, "_dataset_size")]
            a, bb, cc, end = adjoining(lo, hi, var, cnt, None, total)
            R.ob("shares", f"{what}: the first of the {who} starts with the first item", a, show(lo, 5), e.where)
            R.ob("shares", f"{what}: a share of the {who} ends where the next starts", bb, f"{show(hi, 5)} / {show(lo, 5)}", e.where)
            R.ob("shares", f"{what}: the last of the {who} ends with the last item", cc, show(end, 5), e.where)
        if not single:
            R.ob("shares", f"{what}: a rank takes its own share", len(lvl) == 2 and (any(eq_rank(l) for gd in c.guards for l in tm.literals(gd)) or any(attr_is(y, "_global_rank") for y in subterms(lvl[1][2]))) if len(lvl) == 2 else None if len(lvl) != 1 else False, guards_str(c), e.where)
    need(range(n), f"shares of the workers ({what})")


def phi_inits(seq):
    return {mk("phi", l.lid, name): v for l in all_loops_of(seq) for name, v in l.carried.items()}


def all_loops_of(seq):
    seen = {}
    for e, c in flow.walk(seq):
        for l in c.loops:
            seen[l.lid] = l
    return list(seen.values())


def eq_rank(l):
    l = strip(l)
    return l.k == "eq" and any(attr_is(y, "_global_rank") for y in l.a) and any(isinstance(y, T) and strip(y).k in ("idx", "elem") for y in l.a)


def handed(P, R, g, seq):
    """all the shares are cut into batches and all of these are handed out"""
    cuts, calls = [], []
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name == TURNS and e.args:
            calls.append((e, c))
    if not calls:
        R.ob("batches", f"{g.name}: handed out", None, f"{TURNS} isn't called", g.where)
        return
    for e, c in calls:
        x = strip(e.args[0])
        if x.k != "comp":
            R.ob("batches", f"{g.name}: every share is cut", None, show(x, 4), e.where)
            continue
        body, (it, cond) = strip(x.a[1]), x.a[2][0][:2]
        ok = len(x.a[2]) == 1 and body.k == "call" and body.a[0].k == "meth" and body.a[0].a[1] == "_chunk_list" and len(body.a[1]) >= 2
        if not ok:
            R.ob("batches", f"{g.name}: every share is cut", None, show(x, 4), e.where)
            continue
        src, size = strip(body.a[1][0]), strip(body.a[1][1])
        R.ob("batches", f"{g.name}: every share is cut", cond is TRUE and not any(y.k == "slice" for y in subterms(it) if contains_top(it, y)), show(x, 4), e.where)
        R.ob("batches", f"{g.name}: size of a batch", attr_is(size, "_batch_size"), show(size, 3), e.where)


def contains_top(it, y):
    it = strip(it)
    return it.k == "sub" and strip(it.a[1]) is y


def cut(P, R):
    f = P.func(f"{BS}._chunk_list")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    ps = [p for p in f.params if p != "self"]
    arr, size = mk("param", ps[0]), mk("param", ps[1])
    n = 0
    rets = strip(ev.ret)
    found = [(strip(e.args[0]), c.guards, e.where) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "append" and e.args and c.loops]
    found += [(strip(e.value), c.guards, e.where) for e, c in flow.walk(seq) if e.kind == "yield" and isinstance(e.value, T)]
    if not found:
        found = [(strip(x.a[1]), [x.a[2][0][1]], f.where) for x in subterms(rets) if x.k == "comp"]
    for x, gs, where in found:
        if x.k != "sub" or x.a[0] is not arr and strip(x.a[0]) is not arr:
            continue
        n += 1
        s = strip(x.a[1])
        parts = None
        if s.k == "slice":
            parts = [strip(y) if isinstance(y, T) else None for y in s.a[:3]]
        elif s.k == "call" and fname(s) == "slice":
            parts = [strip(y) for y in s.a[1]]
        if not parts or len(parts) < 2 or parts[0] is None or parts[1] is None:
            R.ob("batches", "bounds of a batch", None, show(x, 4), where)
            continue
        lo, hi = parts[0], parts[1]
        step = parts[2] if len(parts) > 2 and parts[2] is not None else NONE
        rs = [y for y in subterms(lo) if y.k in ("elem", "idx")]
        rng = peel(strip(rs[0].a[0])) if rs else None
        R.ob("batches", "a batch ends where the next starts", strip(tm.sub(hi, lo)) is size and step in (NONE, const(1)), f"{show(lo, 4)} to {show(hi, 4)}", where)
        if rng is not None and rng.k == "call" and fname(rng) == "range":
            a = [strip(y) for y in rng.a[1]]
            if len(a) == 3:
                good = a[0] is ZERO and a[1].k == "call" and fname(a[1]) == "len" and strip(a[1].a[1][0]) is arr and a[2] is size and lo is rs[0]
                R.ob("batches", "the batches cover the share", good, show(rng, 4), where)
            else:
                R.ob("batches", "the batches cover the share", None, show(rng, 4), where)
        else:
            R.ob("batches", "the batches cover the share", None, show(lo, 4), where)
        gs = [y for y in gs if y is not TRUE]
        R.ob("batches", "no batch is left out", not gs, "; ".join(show(y, 4) for y in gs), where)
    need(range(n), "batches cut from a share")


def turns(P, R):
    f = P.func(f"{BS}.{TURNS}")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    src = mk("param", [p for p in f.params if p != "self"][0])
    cs = counters(seq)
    n = 0
    from_src = lambda t: t is not None and mentions(t, lambda y: y is src)
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name in ("pop", "popleft") and from_src(e.recv):
            n += 1
            R.ob("turns", "in order", e.name == "popleft" or [strip(y) for y in e.args] == [ZERO], f"{e.name}({', '.join(show(y, 2) for y in e.args)})", e.where)
            r = strip(e.recv)
            ok = None
            if r.k == "sub" and strip(r.a[0]) is src:
                i = strip(r.a[1])
                if i.k == "op" and i.a[0] == "Mod":
                    w = strip(i.a[2])
                    ok = attr_is(w, "_num_workers") or w.k == "call" and fname(w) == "len" and strip(w.a[1][0]) is src or False
                    num = strip(i.a[1])
                    ph = cs.get(i.a[1]) or next((v for k, v in cs.items() if strip(k) is num), None)
                    if ph is not None:
                        R.ob("turns", "one worker after the other", strip(ph[1]) is ZERO and strip(ph[2]) is const(1) or None if tm.is_num(strip(ph[2])) and strip(ph[2]) is const(1) else False, f"from {show(ph[1], 2)}, by {show(ph[2], 2)}", e.where)
                    elif num.k != "idx":
                        R.ob("turns", "one worker after the other", None, show(num, 3), e.where)
                elif is_const(i):
                    ok = False
            R.ob("turns", "of the worker whose turn it is", ok, show(r, 5), e.where)
            lp = c.loops[-1] if c.loops else None
            if lp is None:
                continue
            def put(x):
                return "put" if x.kind == "call" and x.name == "append" and x.recv is not None and not from_src(x.recv) else None
            res = count_paths(lp.body, put)
            ends = [dict(s).get("put", 0) for k, v in res.items() if k in ("norm", "cont") for s in v]
            R.ob("turns", "one batch in each turn", bool(ends) and all(k == 1 for k in ends), f"per turn: {sorted(set(ends))}", e.where)
            # an empty worker's turn yields an empty batch; otherwise its next batch
            for left in (True, False):
                at = lambda x: left if x is r or strip(x) is r else (not left) if x.k == "eq" and ZERO in x.a and any(isinstance(y, T) and y.k == "call" and fname(y) == "len" and strip(y.a[1][0]) is r for y in x.a) else left if x.k == "call" and fname(x) == "len" and strip(x.a[1][0]) is r else None
                puts = [x for x, xc in flow.walk(lp.body) if put(x) and not any(truth3(g, at) is False for g in xc.guards)]
                for x in puts:
                    v = strip(spec(x.args[0], at))
                    got = any(y.k == "call" and y.a[0].k == "meth" and y.a[0].a[1] in ("pop", "popleft") for y in subterms(v))
                    R.ob("turns", "a batch that is left" if left else "no batch is left", got == left, show(v, 4), x.where)
            # as long as something is left
            some = lambda x: False if x.k == "eq" and ZERO in x.a and any(isinstance(y, T) and y.k == "call" and fname(y) == "sum" and from_src(y) for y in x.a) else True if x.k == "call" and fname(x) in ("any", "sum") and from_src(x) else None
            cond = lp.cond if lp.kind == "while" else None
            v = truth3(cond, some) if cond is not None else None
            early = [x for x, xc in flow.walk(lp.body) if x.kind in ("break", "return") and not any(truth3(g, some) is False for g in xc.guards)]
            if v is None and cond is TRUE and early:
                v = None
            R.ob("turns", "until nothing is left", False if v is False else True if v and not early else None if not v else False, show(cond, 4) if cond is not None else "", e.where)
    need(range(n), "batches taken from a worker")
    drop = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name in ("pop", "remove", "clear") and e.recv is not None and not from_src(e.recv) or e.kind == "del" and e.base is not None and not from_src(e.base)]
    for e, c in drop:
        full = lambda x: False if x.k == "eq" and ZERO in x.a and any(isinstance(y, T) and y.k == "call" and fname(y) == "len" and strip(y.a[1][0]).k == "sub" for y in x.a) else True if x.k == "sub" and strip(x.a[1]) is const(-1) else True if x.k == "call" and fname(x) == "len" else None
        R.ob("turns", "only empty batches are dropped", any(truth3(g, full) is False for g in c.guards), guards_str(c)[-160:], e.where)
        if e.kind == "call" and e.name == "pop":
            R.ob("turns", "dropped at the end", not e.args or strip(e.args[0]) is const(-1), show(e.args[0], 2) if e.args else "", e.where)
    outs = [(e, c) for e, c in flow.walk(seq) if e.kind == "yield"]
    for e, c in outs:
        v = strip(e.value)
        sl = [y for y in subterms(v) if y.k == "slice"]
        R.ob("turns", "all batches are handed out", not sl and not any(y.k == "comp" and y.a[2][0][1] is not TRUE and not same_only(y) for y in subterms(v) if y.k == "comp" and not from_src(y)), show(v, 4), e.where)
    if not outs:
        r = strip(ev.ret)
        R.ob("turns", "all batches are handed out", None, show(r, 3), f.where)


def same_only(y):
    return False


def from_chunks(P, R):
    # ranks
    for g in role(P, True, False):
        seq, ev = evaluate(P, g, opaque={"_chunk_list", TURNS}, policy=lambda a, b, d: False)
        ranks_of(P, R, g, seq)
    for single in (True, False):
        for g in role(P, True, single):
            whole_order(P, R, g, single)
    f = P.func(f"{BS}.__iter_from_shuffled_chunks")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"_chunk_list", TURNS}, policy=lambda a, b, d: False)
    ps = [mk("param", p) for p in f.params if p != "self"]
    chunk, iv = ps[0], ps[1]
    n = 0
    for e, c in flow.walk(seq):
        if e.kind != "call" or e.name not in ("append", "extend") or not e.args or not c.loops:
            continue
        r = strip(e.recv)
        if r.k != "sub":
            continue
        n += 1
        i = strip(r.a[1])
        ok = None
        if i.k == "op" and i.a[0] == "Mod":
            ok = strip(i.a[1]).k == "idx" and attr_is(i.a[2], "_num_workers")
        elif i.k == "idx" or is_const(i):
            ok = False
        whatw = "announced chunks" if not any(is_new(y, "ChunkedIndex") for y in subterms(e.args[0])) else "positions"
        R.ob("chunks", f"{whatw}: of the worker whose turn it is", ok, show(i, 4), e.where)
        R.ob("chunks", f"{whatw}: of every chunk", not c.guards and not sliced(c.loops[-1].iter), guards_str(c), e.where)
        v = strip(e.args[0])
        if whatw == "announced chunks":
            R.ob("chunks", "announced chunks: the chunk itself", v.k == "elem" and mentions(v, lambda y: y is chunk), show(v, 4), e.where)
            continue
        cs = [y for y in subterms(v) if is_new(y, "ChunkedIndex")]
        for y in cs:
            a = list(y.a[1])
            kw = dict(y.a[2]) if len(y.a) > 2 else {}
            idx = strip(a[0]) if a else kw.get("index")
            ci = strip(a[1]) if len(a) > 1 else kw.get("chunk_index")
            ann = strip(a[2]) if len(a) > 2 else kw.get("chunk_indexes")
            R.ob("chunks", "positions: chunk", ci is not None and strip(ci).k == "elem" and strip(strip(ci).a[0]) is chunk, show(ci, 4) if ci is not None else "missing", e.where)
            ok = None
            if idx is not None:
                ar = [z for z in subterms(idx) if z.k == "call" and fname(z).split(".")[-1] in ("arange", "range")]
                perm = strip(idx).k == "elem"
                if len(ar) == 1 and perm:
                    q = [strip(z) for z in ar[0].a[1]]
                    if len(q) == 2:
                        ok = all(z.k == "sub" and strip(z.a[0]).k == "elem" and strip(strip(z.a[0]).a[0]) is iv for z in q) and [strip(z.a[1]) for z in q] == [const(1), const(2)]
                    else:
                        ok = False if len(q) == 1 else None
                    if any(z.k == "slice" for z in subterms(idx)) or any(z.k == "call" and fname(z).split(".")[-1] in ("choice", "sample", "randint") for z in subterms(idx)):
                        ok = False
            R.ob("chunks", "positions: all of the interval", ok, show(idx, 6) if idx is not None else "missing", e.where)
            if ann is not None:
                # the second worker's first chunk: nothing of it is listed yet, and its number isn't 0
                def scene(j, empty):
                    def at(x):
                        if x.k in ("eq", "lt", "le"):
                            m = {}
                            for y in subterms(x):
                                if y.k == "call" and fname(y) == "len" and strip(y.a[1][0]).k == "sub" and strip(strip(y.a[1][0]).a[1]) is i:
                                    m[y] = const(0 if empty else 3)
                                elif y.k == "idx" and peel(strip(y.a[0])) is chunk:
                                    m[y] = const(1)
                                elif y.k == "idx":
                                    m[y] = const(j)
                                elif attr_is(y, "_num_workers"):
                                    m[y] = const(2)
                            m = {y: v for y, v in m.items() if not any(o is not y and contains(o, y) for o in m)}
                            r = tm.subst(x, m)
                            return True if r is TRUE else False if r is FALSE else None
                        if x.k == "sub" and strip(x.a[1]) is i and x.k != "ite" and not ann_value(x):
                            return not empty
                        return None
                    ann_value = lambda x: any(strip(v) is x for _, v in galts(ann))
                    return at
                w = strip(spec(ann, scene(0, True)))
                R.ob("chunks", "positions: the worker's chunks are announced with the first", w.k == "sub" and strip(w.a[1]) is i or (None if w.k == "ite" else False), show(ann, 5), e.where)
                for j, em, what2 in ((1, True, "announced with one position"), (0, False, "announced with one chunk")):
                    w = strip(spec(ann, scene(j, em)))
                    R.ob("chunks", f"positions: {what2}", w is NONE or (None if w.k == "ite" else False), show(ann, 5), e.where)
            else:
                R.ob("chunks", "positions: the worker's chunks are announced with the first", False, "they aren't announced", e.where)
        comps = [y for y in subterms(v) if y.k == "comp"]
        R.ob("chunks", "positions: none is left out", all(z[1] is TRUE for y in comps for z in y.a[2]) if comps else None, show(v, 3), e.where)
    need(range(n), "chunks given to workers", 2)
    handed(P, R, f, seq)


def sliced(it):
    return it is not None and any(y.k == "slice" for y in subterms(it))


def ranks_of(P, R, g, seq):
    R.unit(g.qual)
    n = 0
    guards = []
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name == "append" and e.args and c.loops:
            n += 1
            lits = [strip(l) for x in c.guards for l in tm.literals(x)]
            mine = [l for l in lits if l.k == "eq" and any(attr_is(y, "_global_rank") for y in l.a)]
            ok = None
            for l in mine:
                o = next((strip(y) for y in l.a if not attr_is(y, "_global_rank")), None)
                if o is not None and o.k == "op" and o.a[0] == "Mod":
                    ok = strip(o.a[1]).k == "idx" and attr_is(o.a[2], "_num_replicas")
                elif o is not None:
                    ok = False
            if not mine:
                ok = False
            R.ob("chunks", "ranks: a chunk goes to one rank", ok, guards_str(c), e.where)
            R.ob("chunks", "ranks: nothing else keeps it from it", len(lits) == len(mine), guards_str(c), e.where)
            guards.append((frozenset(lits), strip(e.args[0]), e))
    if n:
        R.ob("chunks", "ranks: chunk and interval together", len({x for x, _, _ in guards}) == 1 and n == 2, f"{n} lists under {len({x for x, _, _ in guards})} condition(s)", g.where)
        return
    # by a stride
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name == "__iter_from_shuffled_chunks" or e.kind == "call" and (e.name or "").endswith("shuffled_chunks"):
            for a in e.args[:2]:
                sl = [strip(y) for y in subterms(a) if y.k == "slice"]
                ok = any(isinstance(y.a[0], T) and attr_is(y.a[0], "_global_rank") and len(y.a) > 2 and isinstance(y.a[2], T) and attr_is(y.a[2], "_num_replicas") and strip(y.a[1]) is NONE for y in sl)
                R.ob("chunks", "ranks: a chunk goes to one rank", ok or None, show(a, 4), e.where)
            n += 1
    need(range(n), "chunks given to ranks")


def whole_order(P, R, g, single):
    """the order covers all chunks, and the intervals are those of the chunks"""
    seq, ev = evaluate(P, g, opaque={"_chunk_list", TURNS}, policy=lambda a, b, d: False)
    what = "one rank" if single else "several ranks"
    n = 0
    for e, c in flow.walk(seq):
        if e.kind == "call" and (e.name or "").endswith("from_shuffled_chunks") and len(e.args) >= 2:
            n += 1
            o, v = strip(e.args[0]), strip(e.args[1])
            perms = {y for y in subterms(o) if y.k == "call" and fname(y).split(".")[-1] == "permutation"}
            perms2 = {y for y in subterms(v) if y.k == "call" and fname(y).split(".")[-1] == "permutation"}
            outer = {y for y in perms}
            if outer:
                p = next(iter(outer))
                rng = [y for y in subterms(p) if y.k == "call" and fname(y).split(".")[-1] in ("range", "arange")]
                full = len(rng) == 1 and len(rng[0].a[1]) == 1 and strip(rng[0].a[1][0]).k == "call" and fname(strip(rng[0].a[1][0])) == "len"
                if not rng and p.a[1]:
                    q = strip(p.a[1][0])
                    full = q.k == "call" and fname(q) == "len" or None
                R.ob("chunks", f"{what}: every chunk is in the order", full, show(p, 5), e.where)
                same = perms2 == perms
                picked = any(y.k == "sub" and strip(y.a[1]) in {strip(z) for z in perms} for y in subterms(v))
                R.ob("chunks", f"{what}: intervals in the order of the chunks", (picked and same) or (False if not picked and v.k in ("call", "sub", "comp") and not perms2 else None), show(v, 5), e.where)
            else:
                R.ob("chunks", f"{what}: every chunk is in the order", None, show(o, 4), e.where)
    need(range(n), f"order of the chunks ({what})")


# ------------------------------------------------------------------ items
def items(P, R):
    f = P.func(DLM + "CacheDataset.__getitem__")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, policy=lambda a, b, d: False)
    index = mk("param", f.params[1])
    put = lambda e: e.kind == "setitem" and e.base is not None and root_attr(strip(e.base)) == "_cache" or e.kind == "call" and e.name in ("_add_item", "__setitem__", "add_item")
    for filled in (False, True):
        at = fillscene(filled)
        res = count_paths(seq, lambda e: "put" if put(e) else None, assume=under(at))
        ends = [dict(s).get("put", 0) for k, v in res.items() if k in ("norm", "ret") for s in v]
        what = "filled" if filled else "unfilled"
        R.ob("items", f"{what}: written", bool(ends) and all(k == (0 if filled else 1) for k in ends), f"{sorted(set(ends))} time(s)", f.where)
        v = strip(spec(ev.ret, at))
        a = "_cache" if filled else "_dataset"
        ok = v.k == "sub" and attr_is(v.a[0], a) and strip(v.a[1]) is index
        R.ob("items", f"{what}: returned", ok or (None if v.k not in ("sub", "const") else False), show(v, 4), f.where)
        if not filled:
            for e, c in flow.walk(seq):
                if e.kind == "setitem" and put(e) and not any(truth3(g, at) is False for g in c.guards):
                    w = strip(spec(e.value, at))
                    R.ob("items", "unfilled: written under its index", strip(e.idx) is index, show(e.idx, 3), e.where)
                    R.ob("items", "unfilled: the item is written", w.k == "sub" and attr_is(w.a[0], "_dataset") and strip(w.a[1]) is index or (None if w.k != "sub" else False), show(w, 4), e.where)
    f = P.func(DLM + "CacheDataset.__len__")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, policy=lambda a, b, d: False)
    for filled, a in ((False, "_dataset"), (True, "_cache")):
        v = strip(spec(ev.ret, fillscene(filled)))
        R.ob("items", f"number of items ({a})", v.k == "call" and fname(v) == "len" and attr_is(v.a[1][0], a) or (None if v.k not in ("call", "poly", "const") else False), show(v, 3), f.where)


# ------------------------------------------------------------------ finish
def of_cache(r):
    r = strip(r)
    return r is not None


def finish_single(P, R):
    f = P.func(DLM + "_SingleProcessDataLoaderIterPatch._next_data")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, policy=lambda a, b, d: False)
    iscache = lambda x: True if x.k == "isinst" else None
    # all caches of the dataset
    acts = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name in ("done", "merge")]
    R.ob("finish", "one process: finished", any(e.name == "done" for e, c in acts), "done() isn't called", f.where)
    R.ob("finish", "one process: merged", any(e.name == "merge" for e, c in acts), "merge() isn't called", f.where)
    for e, c in acts:
        in_end = any("caught" in show(g, 3) for g in c.guards) or bool(c.trys)
        lits = [strip(l) for g in c.guards for l in tm.literals(g)]
        if e.name == "merge":
            R.ob("finish", "one process: merged as one", not e.args or strip(e.args[0]) is const(1), show(e.args[0], 3) if e.args else "", e.where)
            order_ok = before_in(seq, lambda x: x.kind == "call" and x.name == "done", e)
            R.ob("finish", "one process: finished before it is merged", order_ok, "merge() is called before done()", e.where)
        other = [l for l in lits if not (l.k == "isinst" or mentions_attr(l, "filled") or "caught" in show(l, 4) or l.k in ("iter", "is") or mentions_call(l, "_next_data"))]
        R.ob("finish", f"one process: {e.name} at the end of every pass", not other, "; ".join(show(x, 3) for x in other), e.where)
        if e.name == "done" and not c.guards:
            R.ob("finish", "one process: only at the end", False, "done() is called for each batch", e.where)
    # only when the end was reached
    caught(P, R, f, "done", "one process: only at the end")
    caught(P, R, f, "merge", "one process: only at the end (merge)")


def before_in(seq, pred, e):
    bad = []

    def step(st, x):
        if pred(x):
            return [True]
        if x is e and not st:
            bad.append(x)
        return [st]
    flow.Typestate(step).run(seq, [False])
    return not bad


def caught(P, R, f, name, what):
    """every call of `name` in f lies in a handler of StopIteration"""
    inside = set()
    for h in ast.walk(f.node):
        if isinstance(h, ast.ExceptHandler) and (h.type is None or "StopIteration" in ast.unparse(h.type)):
            for x in ast.walk(h):
                inside.add(id(x))
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == name:
            R.ob("finish", what, id(x) in inside or None, f"{name} outside of the handler of StopIteration", f"{f.module.rel}:{x.lineno}")


def sure(seq, at):
    """merged whatever else may be: nothing it depends on is unknown in the scenario"""
    return any(e.kind == "call" and e.name == "merge" and all(truth3(g, at) is True for g in c.guards) for e, c in flow.walk(seq))


def finish_multi(P, R):
    cls = P.cls(DLM + "_MultiProcessingDataLoaderIterPatch")
    entries = [cls.find(n) for n in ("_shutdown_workers", "_next_data") if cls.find(n) is not None]
    merges = []
    for f in entries:
        R.unit(f.qual)
        seq, ev = evaluate(P, f, self_cls=cls, policy=lambda a, b, d: d < 3 and b.cls is cls)
        for filled, complete in ((False, False), (False, True), (True, True), (True, False)):
            def at(x):
                if x.k == "attr" and x.a[1] == "filled":
                    return filled
                if x.k == "attr" and x.a[1] == "_persistent_workers":
                    return False
                if x.k == "attr" and x.a[1] in flags:
                    return complete
                if x.k == "attr" and x.a[1] in busy:
                    return False
                if x.k == "call" and fname(x).split(".")[-1] in ("exists", "isfile"):
                    return True
                return None
            flags, busy = completion_flags(P, cls)
            hits = []

            def step(st, e):
                if e.kind == "store" and e.attr in flags and e.value is TRUE:
                    return ["complete"]
                if e.kind == "call" and e.name == "merge":
                    hits.append(("merge", e, st))
                if removed_path(e) is not None:
                    hits.append(("remove", e, st))
                return [st]
            known = bool(flags)
            flow.Typestate(step, under(at)).run(seq, ["complete" if complete else "-"])
            what = f"several workers, {f.name}, {'filled' if filled else 'complete' if complete else 'broken off'}"
            if filled:
                R.ob("finish", what + ": nothing happens", not hits, hits[0][0] if hits else "", hits[0][1].where if hits else f.where)
            elif f.name == "_shutdown_workers":
                if complete:
                    R.ob("finish", what + ": merged", any(k == "merge" for k, _, _ in hits), "the indexes aren't merged", f.where)
                    R.ob("finish", what + ": nothing is removed", not any(k == "remove" for k, _, _ in hits) or (False if known else None), "indexes are removed", f.where)
                else:
                    R.ob("finish", what + ": not merged", not any(k == "merge" for k, _, _ in hits) or (False if known or sure(seq, at) else None), "what a broken off pass has written is merged", f.where)
                    R.ob("finish", what + ": partial indexes are dropped", any(k == "remove" for k, _, _ in hits), "the partial indexes stay and count as those of the next pass", f.where)
            for k, e, st in hits:
                if k == "merge":
                    merges.append(e)
                    a = strip(e.args[0]) if e.args else None
                    R.ob("finish", "several workers: merged for all workers", a is not None and attr_is(a, "_num_workers", "num_workers"), show(a, 3) if a is not None else "of one worker", e.where)
                elif k == "remove":
                    p = strip(removed_path(e))
                    own = mentions_attr(p, "_global_rank") and mentions_attr(p, "_num_workers") and any(x.k in ("idx", "elem") for x in subterms(p))
                    R.ob("finish", "several workers: only indexes of this rank are dropped", own or None, show(p, 6), e.where)
    # the flag is raised only at the end of the pass
    f = cls.find("_next_data")
    sets = [(m, e, c) for m, e, c in raised(P, cls) if e.attr in completion_flags(P, cls)[0]]
    for m, e, c in sets:
        ended = m.name == f.name and at_handler(c, "StopIteration")
        R.ob("finish", "several workers: complete only when every batch was received", True if ended else None if c.guards or at_handler(c) else False, f"set in {m.name}", e.where)
    R.ob("finish", "several workers: the end of a pass is noticed", bool(sets) or None, "no flag found that says that a pass is complete", f.where)
    R.ob("finish", "several workers: merged in the end", bool(merges), "merge() isn't called", f.where)


def raised(P, cls):
    """(method, event, context) of the attributes of self that are set to True"""
    out = []
    for m in cls.methods.values():
        seq, ev = evaluate(P, m, self_cls=cls, policy=lambda a, b, d: d < 3 and b.cls is cls)
        out += [(m, e, c) for e, c in flow.walk(seq) if e.kind == "store" and e.base.k == "self" and strip(e.value) is TRUE]
    return out


def at_handler(c, name=None):
    """the place lies in an exception handler (of that exception)"""
    for it, part in c.trys:
        if isinstance(part, int):
            if name is None or name in str(it.handlers[part][0]) or (it.node is not None and it.node.handlers[part].type is not None and name in ast.unparse(it.node.handlers[part].type)):
                return True
    return False


def completion_flags(P, cls):
    """(attributes that say that the pass was read to its end, attributes that say that a batch is being fetched):
    both are set to True; one of them decides whether the indexes are merged or removed"""
    sets = raised(P, cls)
    names = {e.attr for _, e, _ in sets}
    flags = set()
    for m in cls.methods.values():
        seq, ev = evaluate(P, m, self_cls=cls, policy=lambda a, b, d: d < 3 and b.cls is cls)
        for e, c in flow.walk(seq):
            if e.kind == "call" and e.name == "merge":
                pos = {strip(l).a[1] for g in c.guards for l in tm.literals(g) if strip(l).k == "attr"}
                flags |= pos & names
    flags |= {e.attr for _, e, c in sets if at_handler(c)}
    return flags, names - flags


def finish_worker(P, R):
    f = P.func(DLM + "WorkerLoop.__call__")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, policy=lambda a, b, d: False)
    dones = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "done"]
    R.ob("finish", "worker: finished", bool(dones), "done() isn't called", f.where)
    for e, c in dones:
        lits = [strip(l) for g in c.guards for l in tm.literals(g)]
        other = [l for l in lits if not (l.k == "isinst" or l.k == "eq" and "Map" in show(l, 4) or l.k == "iter" or is_assert(l) or mentions_ext(l, "fetcher") or l.k in ("undef", "phi", "ite"))]
        other = [l for l in other if mentions_param(l, "worker_id") or mentions_attr(l, "_global_rank") or mentions_attr(l, "_profile")]
        R.ob("finish", "worker: every worker finishes its cache", not other, "; ".join(show(x, 3) for x in other), e.where)
        R.ob("finish", "worker: after its last batch", before_in(seq, lambda x: x.kind == "call" and x.name == "_worker_loop", e), "before the worker's loop", e.where)


def wiring(P, R):
    f = P.func(DLM + "CacheDataLoader.__init__")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, policy=lambda a, b, d: False)
    init = P.func(f"{BS}.__init__")
    n = 0
    for e, c in flow.walk(seq):
        if e.kind == "call" and (e.callee or "").endswith("CacheBatchSampler") or e.kind == "call" and e.name == "CacheBatchSampler":
            n += 1
            a = passed(e, init)
            if a is None:
                R.ob("wired", "sampler", None, "arguments not understood", e.where)
                continue
            tests = {"dataset_size": lambda t: t.k == "call" and fname(t) == "len", "num_replicas": lambda t: attr_is(t, "world_size"), "global_rank": lambda t: attr_is(t, "global_rank", "_global_rank"),
                     "num_workers": lambda t: mentions_param(t, "num_workers"), "batch_size": lambda t: mentions_param(t, "batch_size"), "drop_last": lambda t: mentions_param(t, "drop_last"),
                     "shuffle": lambda t: mentions_param(t, "shuffle"), "cache": lambda t: mentions_attr(t, "_cache") or mentions_ext(t, "Cache") or True}
            for k, fn in tests.items():
                t = a.get(k)
                R.ob("wired", f"sampler: {k}", t is not None and bool(fn(strip(t))), show(t, 3) if t is not None else "missing", e.where)
        if e.kind == "call" and e.name == "__init__" and "batch_sampler" in e.kw:
            n += 1
            R.ob("wired", "loader: batches", any(is_new(y, "CacheBatchSampler") for y in subterms(strip(e.kw["batch_sampler"]))), show(e.kw["batch_sampler"], 3), e.where)
            w = e.kw.get("num_workers")
            R.ob("wired", "loader: num_workers", w is not None and mentions_param(w, "num_workers"), show(w, 3) if w is not None else "missing", e.where)
    need(range(n), "sampler and loader", 2)
    seq, ev = evaluate(P, init, policy=lambda a, b, d: False)
    for e, c in flow.walk(seq):
        if e.kind == "store" and e.attr.lstrip("_") in init.params and e.base is not None and strip(e.base).k == "self":
            R.ob("wired", f"sampler keeps {e.attr}", mentions_param(e.value, e.attr.lstrip("_")), show(e.value, 3), e.where)
    # batches without a result are the only ones dropped
    f = P.func(DLM + "CacheCollateFn.__call__")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, policy=lambda a, b, d: False)
    its = mk("param", f.params[1])
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name == "collate_fn" and e.args:
            v = strip(e.args[0])
            ok = None
            if v.k == "comp" and len(v.a[2]) == 1:
                it, cond = v.a[2][0][:2]
                l = strip(cond)
                ok = strip(v.a[1]).k == "elem" and (l is TRUE or l.k == "not" and strip(l.a[0]).k == "is" and NONE in strip(l.a[0]).a)
            R.ob("wired", "collation: every item of the batch", ok, show(v, 5), e.where)
