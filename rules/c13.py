"""C13: the read region of a chunk is respected everywhere."""
from .common import *

MODS = ("litdata.streaming.shuffle", "litdata.streaming.dataset", "litdata.streaming.sampler", "litdata.streaming.config", "litdata.streaming.reader",
        "litdata.streaming.cache", "litdata.streaming.dataloader", "litdata.utilities.shuffle", "litdata.utilities.subsample", "litdata.utilities.train_test_split",
        "litdata.utilities.dataset_utilities", "litdata.streaming.item_loader")
FIELDS = {"chunk_start": 0, "roi_start_idx": 1, "roi_end_idx": 2, "chunk_end": 3}

_strip = strip


def strip(t):
    """without versions, the named fields of an interval written as positions"""
    if mentions(t, lambda x: x.k == "attr" and x.a[1] in FIELDS):
        t = tm.rebuild(t, lambda x: mk("sub", strip(x.a[0]), const(FIELDS[x.a[1]]), 0) if x.k == "attr" and x.a[1] in FIELDS else None)
    return _strip(t)


def check(P, R):
    R.rule("width", "wherever components of an interval are subtracted or spanned, it is the end of its region minus the start of its region")
    R.rule("intervals", "every loader gives chunk k the range following the one of chunk k-1, as long as its number of items, and its region inside it, shifted by the start of the chunk")
    R.rule("default-region", "the default region of a chunk is all its items, counted as its loader counts them")
    R.rule("lookup", "an index is resolved to the chunk whose region contains it, counting the region widths of the chunks before it")
    R.rule("split", "a chunk shared between workers is cut at one point: one piece ends where the next begins, each worker's quota falls by the piece it got")
    R.rule("all-assigned", "the items not covered by whole batches go to a worker unless drop_last is set; the quotas add up to the number of items")
    R.rule("chunk-once", "the chunks handed to the assignment are each listed once")
    R.rule("aligned", "the chunks and the intervals handed to the assignment are in the same order")
    R.rule("wired", "the selected files and regions reach the loader that makes the intervals")
    R.rule("subsampled-order", "the chunk loaded for position k is the one named at position k of the selected files")
    R.part(P, widths, lengths, intervals, default_region, lookup, split, quotas, chunk_once, wiring, positions)


# ------------------------------------------------------------------ widths
def comp_of(x):
    """(interval, component) of a component access, else None"""
    x = strip(x)
    if x.k == "sub" and len(x.a) > 1 and is_const(x.a[1]) and tm.is_num(x.a[1]):
        try:
            return strip(x.a[0]), int(float(x.a[1].a[1]))
        except (ValueError, TypeError):
            return None
    if x.k == "attr" and x.a[1] in FIELDS:
        return strip(x.a[0]), FIELDS[x.a[1]]
    return None


def is_interval(x):
    """an element of something named intervals"""
    n = 0
    while n < 12:
        n += 1
        x = strip(x)
        if x.k in ("attr", "param", "glob"):
            return "interval" in str(x.a[1] if x.k == "attr" else x.a[0])
        if x.k == "phi":
            return "interval" in str(x.a[1])
        if x.k == "call":
            return fname(x).split(".")[-1] in ("get_chunk_intervals", "get_chunks_and_intervals_per_workers", "generate_intervals") or (x.a[0].k == "meth" and is_interval(x.a[0].a[0])) or any(is_interval(a) for a in x.a[1])
        if x.k in ("elem", "sub", "append", "extend", "upd", "mut"):
            x = x.a[0]
            continue
        if x.k == "comp":
            return mentions(x, lambda y: y.k == "new" and fname(y).endswith("Interval"))
        return False
    return False


def is_region(x):
    x = strip(x)
    n = 0
    while n < 12:
        n += 1
        x = strip(x)
        if x.k in ("attr", "param", "phi"):
            nm = str(x.a[1] if x.k in ("attr", "phi") else x.a[0])
            return "roi" in nm or "region_of_interest" in nm
        if x.k in ("elem", "sub", "append", "extend", "upd", "mut"):
            x = x.a[0]
            continue
        return False
    return False


def norm(i, n):
    return i + n if i < 0 else i


def spans(t):
    """[(interval, end component, start component, shown)] of the differences and ranges in a term"""
    out = []
    for x in subterms(t):
        if x.k == "add" or x.k == "poly" or x.k == "sum":
            pos, negs = [], []
            for mono, cf in tm.poly_items(x).items():
                if len(mono) == 1:
                    c = comp_of(mono[0])
                    if c:
                        (pos if cf > 0 else negs).append(c)
            for p in pos:
                for q in negs:
                    if p[0] is q[0]:
                        out.append((p[0], p[1], q[1], x))
        if x.k == "call" and fname(x).split(".")[-1] in ("arange", "range") and len(x.a[1]) >= 2:
            a, b = comp_of(x.a[1][0]), comp_of(x.a[1][1])
            if a and b and a[0] is b[0]:
                out.append((a[0], b[1], a[1], x))
        if x.k == "slice" and len(x.a) >= 2 and isinstance(x.a[0], T) and isinstance(x.a[1], T):
            a, b = comp_of(x.a[0]), comp_of(x.a[1])
            if a and b and a[0] is b[0]:
                out.append((a[0], b[1], a[1], x))
    # end - start is positive where it stands alone; inside a larger sum its sign does not matter
    return [(iv, lo, hi, x) if lo > hi and len(tm.poly_items(x)) > 2 else (iv, hi, lo, x) for iv, hi, lo, x in out]


def event_terms(e, c):
    return [t for t in [e.term, e.value, e.idx] + list(e.args) + [l.iter for l in c.loops] + list(c.guards) if isinstance(t, T)]


def widths(P, R):
    n = 0
    for q, f in sorted(P.funcs.items()):
        if f.module.name not in MODS:
            continue
        seen = set()
        for e, c in own_events(P, f):
            for t in event_terms(e, c):
                for iv, hi, lo, x in spans(t):
                    if x in seen:
                        continue
                    seen.add(x)
                    if is_interval(iv):
                        n += 1
                        R.ob("width", f"{'.'.join(q.split('.')[-2:])}: {show(iv, 2)}", (norm(hi, 4), norm(lo, 4)) == (2, 1), show(x, 5), e.where)
                    elif is_region(iv):
                        n += 1
                        R.ob("width", f"{'.'.join(q.split('.')[-2:])}: {show(iv, 2)}", (norm(hi, 2), norm(lo, 2)) == (1, 0), show(x, 5), e.where)
    need(range(n), "interval widths", 6)


def full_size(t):
    return mentions_key(t, "chunk_size") or mentions_key(t, "dim")


def lengths(P, R):
    """the quantities that must be made of region widths"""
    def verdict(what, t, where):
        ws = [w for w in spans(t) if is_interval(w[0])]
        cs = [comp_of(x) for x in subterms(t)]
        other = [c for c in cs if c and is_interval(c[0]) and (norm(c[1], 4) in (0, 3))]
        ok = True if ws and not other and not full_size(t) else (False if other or full_size(t) else None)
        R.ob("width", what, ok, show(t, 6), where)

    f = P.func("streaming.shuffle.Shuffle.get_len")
    seq, ev = evaluate(P, f)
    verdict("length of a rank", ev.ret, f.where)
    for q, a in (("streaming.dataset.StreamingDataset.__iter__", "stop_length"), ("streaming.config.ChunksConfig.__init__", "_length")):
        f = P.func(q)
        st = [e for e, c in own_events(P, f) if e.kind == "store" and e.attr == a]
        for e in st:
            v = e.value
            # the last end of the last interval is the length of whole chunks
            verdict(a, v, e.where)
    f = P.func("streaming.config.ChunksConfig.__len__")
    seq, ev = evaluate(P, f)
    R.ob("width", "length of the configuration", True if mentions_attr(ev.ret, "_length") or spans(ev.ret) else None, show(ev.ret, 4), f.where)


# ------------------------------------------------------------------ intervals
def counters(seq):
    """phi -> (loop, init, step) of the loop variables that only grow by something that does not depend on loop variables"""
    out = {}

    def go(s):
        for n in s.items if hasattr(s, "items") and not callable(s.items) else s:
            visit(n)

    def visit(n):
        if isinstance(n, Loop):
            for name, (init, nxt) in n.carried.items():
                ph = mk("phi", n.lid, name)
                try:
                    step = tm.sub(nxt, ph)
                except Exception:
                    continue
                if not mentions(step, lambda x: x.k == "phi" and x.a[0] == n.lid):
                    out[ph] = (n, init, step)

    for e, c in flow.walk(seq):
        for l in c.loops:
            visit(l)
    return out


def same_counters(t, cs):
    """rewrite counters that start alike and grow alike into one of them"""
    rep = {}
    m = {}
    for ph, (l, init, step) in cs.items():
        k = (l.lid, strip(init), strip(step))
        rep.setdefault(k, ph)
        m[ph] = rep[k]
    return tm.subst(t, m)


def four(t):
    """components of an interval built here"""
    t = strip(t)
    if t.k in ("list", "tuple") and len(t.a[0]) == 4:
        return list(t.a[0])
    if t.k == "new" and fname(t).endswith("Interval"):
        args = list(t.a[1]) if len(t.a) > 1 and isinstance(t.a[1], tuple) else []
        kw = dict(t.a[2]) if len(t.a) > 2 and isinstance(t.a[2], tuple) else {}
        for k in list(FIELDS)[len(args):]:
            if k in kw:
                args.append(kw[k])
        return args if len(args) == 4 else None
    if t.k == "call" and fname(t) in ("list", "tuple") and len(t.a[1]) == 1:
        return four(t.a[1][0]) or [mk("sub", t.a[1][0], const(i), 0) for i in range(4)]
    if t.k == "call" and (fname(t).endswith("Interval")):
        return list(t.a[1]) if len(t.a[1]) == 4 else None
    if t.k in ("phi", "elem") and is_interval(t):
        return [mk("sub", t, const(i), 0) for i in range(4)]
    return None


def intervals(P, R):
    classes = [c for c in P.cls("streaming.item_loader.BaseItemLoader").all_subclasses()]
    n = 0
    for c in sorted(classes, key=lambda c: c.qual):
        f = c.methods.get("generate_intervals") if hasattr(c, "methods") else c.find("generate_intervals")
        if f is None or f.cls is not c:
            f = c.find("generate_intervals")
            if f is None or "abstract" in " ".join(ast.unparse(d) for d in f.node.decorator_list):
                R.ob("intervals", c.name, False, "no generate_intervals", c.module.rel)
                continue
        n += 1
        R.unit(f.qual)
        seq, ev = evaluate(P, f, self_cls=c)
        cs = counters(seq)
        built = [(e, x) for e, x in flow.walk(seq) if e.kind == "call" and (e.callee or "").endswith("item_loader.Interval")]
        if not built:
            built = [(e, x) for e, x in flow.walk(seq) if e.kind == "call" and e.name == "append" and e.args and four(e.args[0])]
        if not built:
            R.ob("intervals", c.name, None, "no interval found", f.where)
            continue
        for e, x in built:
            comps = four(e.args[0]) if e.name == "append" else (list(e.args) if len(e.args) == 4 else four(mk("call", e.fn, tuple(e.args), tuple(e.kw.items()))) or [e.kw.get(k) for k in FIELDS])
            if not comps or any(v is None for v in comps) or not x.loops:
                R.ob("intervals", c.name, None, "interval not understood", e.where)
                continue
            lp = x.loops[-1]
            comps = [strip(same_counters(v, cs)) for v in comps]
            b, s, en, nd = comps
            size = strip(tm.sub(nd, b))
            ok_iter = mentions_attr(lp.iter, "_chunks") and not any(y.k == "slice" for y in subterms(lp.iter))
            R.ob("intervals", f"{c.name}: every chunk", ok_iter and not [g for g in x.guards if not is_assert(g)], f"over {show(lp.iter, 3)} when {guards_str(x)}", e.where)
            unit = items_of(c, size)
            R.ob("intervals", f"{c.name}: end of a chunk", unit, f"{show(nd, 6)} - {show(b, 6)} = {show(size, 5)}", e.where)
            ph = cs.get(b) or next((v for k, v in cs.items() if strip(k) is b), None)
            R.ob("intervals", f"{c.name}: start of a chunk", None if ph is None else (strip(ph[1]) is ZERO and strip(ph[2]) is size), f"{show(b, 3)} starts at {show(ph[1], 2) if ph else '?'} and grows by {show(ph[2], 5) if ph else '?'}", e.where)
            R.ob("intervals", f"{c.name}: region start", region_ok(s, b, b, 0), show(s, 7), e.where)
            R.ob("intervals", f"{c.name}: region end", region_ok(en, b, nd, 1), show(en, 7), e.where)
    need(range(n), "loaders", 3)


def is_assert(g):
    return "assert" in show(g, 2) or mentions_attr(g, "_block_size")


def items_of(c, size):
    """the number of items of a chunk, in the unit of the loader"""
    size = strip(size)
    if c.is_sub("TokensLoader") or c.name == "TokensLoader":
        if size.k == "op" and size.a[0] == "FloorDiv":
            return is_key(strip(size.a[1]), "dim") and mentions_attr(size.a[2], "_block_size")
        return False if mentions_key(size, "dim") or mentions_key(size, "chunk_size") else None
    if is_key(size, "chunk_size"):
        return True
    return False if size.k in ("sub", "op", "add", "const", "poly") else None


def region_ok(t, begin, default, i):
    """t is `default` without regions and begin + region[k][i] with them"""
    res = True
    for g, v in galts(t):
        v = strip(v)
        if v is strip(default):
            if not any(mentions_attr(l, "region_of_interest") for l in tm.literals(g)):
                return False
            continue
        d = strip(tm.sub(v, begin))
        c = comp_of(d)
        if c is None or not (mentions_attr(c[0], "region_of_interest")):
            return False if not mentions_attr(t, "region_of_interest") or c is not None or d.k in ("add", "poly", "const") else None
        if norm(c[1], 2) != i:
            return False
        k = strip(c[0])
        if k.k == "sub" and strip(k.a[1]).k != "idx":
            res = None if res else res
    return res


def default_region(P, R):
    f = P.func("utilities.dataset_utilities.generate_roi")
    seq, ev = evaluate(P, f)
    R.unit(f.qual)
    n = 0
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name == "append" and e.args and strip(e.args[0]).k in ("tuple", "list") and len(strip(e.args[0]).a[0]) == 2:
            n += 1
            a, b = (strip(x) for x in strip(e.args[0]).a[0])
            tok = [g for g in c.guards if mentions(g, lambda x: x.k == "cls" and str(x.a[0]).endswith("TokensLoader")) or "TokensLoader" in show(g, 4)]
            neg = bool(tok) and all(strip(g).k == "not" for g in tok)
            blocks = b.k == "op" and b.a[0] == "FloorDiv" and mentions_attr(b.a[2], "_block_size") and is_key(strip(b.a[1]), "dim")
            ok = a is ZERO and (blocks if tok and not neg else is_key(b, "chunk_size") if neg else None)
            R.ob("default-region", "tokens" if tok and not neg else "items", ok, f"({show(a, 2)}, {show(b, 4)})", e.where)
    if not n:
        for g, kind, t in pieces(ev.ret):
            R.ob("default-region", "comprehension", None, show(t, 4), f.where)


# ------------------------------------------------------------------ lookup
def lookup(P, R):
    f = P.func("streaming.config.ChunksConfig._get_chunk_index_from_index")
    seq, ev = evaluate(P, f)
    R.unit(f.qual)
    index = mk("param", f.params[1])
    rets = [(e, c) for e, c in flow.walk(seq) if e.kind == "return" and e.value is not None or (e.kind == "return" and e.args)]
    rets = [(e, c) for e, c in flow.walk(seq) if e.kind == "return"]
    n = 0
    for e, c in rets:
        v = e.value if e.value is not None else e.term
        v = strip(v) if v is not None else None
        if v is None or v.k != "tuple" or len(v.a[0]) != 2:
            continue
        n += 1
        real, ci = (strip(x) for x in v.a[0])
        # real = (start of the region of chunk ci) + (index - start among the regions)
        starts = [comp_of(mono[0]) for mono, cf in tm.poly_items(real).items() if len(mono) == 1 and cf > 0 and comp_of(mono[0])]
        starts = [s for s in starts if mentions_attr(s[0], "_intervals")]
        inst = [(strip(mono[0]), cf) for mono, cf in tm.poly_items(real).items() if len(mono) == 1]
        hasidx = any(x is index and cf == 1 for x, cf in inst)
        if not starts or not hasidx:
            R.ob("lookup", "position inside the chunk", None if mentions(real, lambda x: x is index) and mentions_attr(real, "_intervals", "intervals") else False, show(real, 6), e.where)
        else:
            iv, comp = starts[0]
            R.ob("lookup", "position inside the chunk starts at its region", norm(comp, 4) == 1, show(real, 6), e.where)
            if iv.k == "sub":
                R.ob("lookup", "interval of the chunk returned", strip(iv.a[1]) is ci, f"{show(iv, 3)} for chunk {show(ci, 3)}", e.where)
            elif iv.k == "elem" and ci.k == "idx":
                R.ob("lookup", "interval of the chunk returned", strip(iv.a[0]) is strip(ci.a[0]) or None, f"{show(iv, 3)} for chunk {show(ci, 3)}", e.where)
            rest = [(x, cf) for x, cf in inst if x is not index and not (comp_of(x) and comp_of(x)[0] is iv)]
            if len(rest) == 1 and rest[0][1] == -1 and comp_of(rest[0][0]):
                z, k = comp_of(rest[0][0])
                R.ob("lookup", "what lies before the chunk is taken off", norm(k, 2) == 0, show(real, 6), e.where)
                lo = any(implies_ge(l, index, mk("sub", z, ZERO, 0)) for g in c.guards for l in tm.literals(g))
                g = [l for g in c.guards for l in tm.literals(g)]
                lo = any(bound(l, index, z, 0) for l in g)
                hi = any(bound(l, index, z, 1) for l in g)
                R.ob("lookup", "index lies in the region of the chunk", lo and hi, guards_str(c), e.where)
            elif not rest and tm.lin_const(real) != 0 or len(rest) == 1 and comp_of(rest[0][0]) and not is_interval(comp_of(rest[0][0])[0]):
                R.ob("lookup", "what lies before the chunk is taken off", False, show(real, 6), e.where)
    need(range(n), "return of a chunk and an index")
    # the table of region starts
    cs = counters(seq)
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name == "append" and recv_is_attr(e, "zero_based_roi") and e.args and strip(e.args[0]).k in ("tuple", "list") and c.loops:
            a, b = (strip(same_counters(x, cs)) for x in strip(e.args[0]).a[0])
            w = strip(tm.sub(b, a))
            cnt = cs.get(a)
            if cnt is None and a.k == "phi":
                lp = next((l for l in c.loops if l.lid == a.a[0]), None)
                if lp is not None and a.a[1] in lp.carried:
                    nxt = strip(same_counters(lp.carried[a.a[1]][1], cs))
                    R.ob("lookup", "the next chunk starts in the table where this one ends", True if nxt is b else (None if mentions(nxt, lambda x: x.k in ("phi", "call")) else False), show(nxt, 4), e.where)
            wid = [s for s in spans(mk("tuple", (w,))) if is_interval(s[0])]
            R.ob("lookup", "width in the table", bool(wid) and all((norm(h, 4), norm(l, 4)) == (2, 1) for _, h, l, _ in wid), f"({show(a, 3)}, {show(b, 5)})", e.where)
            R.ob("lookup", "starts in the table", (False if is_const(a) else None) if cnt is None else strip(cnt[1]) is ZERO and strip(cnt[2]) is w, f"starts at {show(cnt[1], 2) if cnt else '?'}, grows by {show(cnt[2], 4) if cnt else '?'}", e.where)
            R.ob("lookup", "every chunk is in the table", mentions_attr(c.loops[-1].iter, "_intervals", "intervals") and not [g for g in c.guards if not mentions_attr(g, "zero_based_roi")], guards_str(c), e.where)
    # both results are used as what they are
    for g, node in call_sites(P, "_get_chunk_index_from_index"):
        for e, c in own_events(P, g):
            if e.kind == "call" and e.callee and e.callee.endswith("ChunkedIndex") and mentions_call(mk("tuple", tuple(e.args) + tuple(e.kw.values())), "_get_chunk_index_from_index"):
                if e.starred:
                    R.ob("lookup", f"{g.name}: index and chunk", True, "both in their order", e.where)
                    continue
                cls = P.classes.get(e.callee) or P.classes.get("litdata." + e.callee)
                names = [s.target.id for s in cls.node.body if isinstance(s, ast.AnnAssign)] if cls is not None else ["index", "chunk_index"]
                a = dict(zip(names, e.args))
                a.update(e.kw)
                for name, k in (("index", 0), ("chunk_index", 1)):
                    v = strip(a[name]) if name in a else None
                    if v is not None and v.k == "sub":
                        R.ob("lookup", f"{g.name}: {name}", v.a[1] is const(k), show(v, 4), e.where)
    cls = P.cls("streaming.sampler.ChunkedIndex")
    names = [s.target.id for s in cls.node.body if isinstance(s, ast.AnnAssign)]
    R.ob("lookup", "fields of ChunkedIndex", names[:2] == ["index", "chunk_index"], str(names), cls.module.rel)


def bound(l, index, z, which):
    """literal l says z[0] <= index (which 0) or index < z[1] (which 1)"""
    l = strip(l)
    if l.k not in ("le", "lt"):
        return False
    p = tm.poly_items(l.a[0])
    comps = [(comp_of(m[0]), cf) for m, cf in p.items() if len(m) == 1 and comp_of(m[0]) and comp_of(m[0])[0] is z]
    idxs = [cf for m, cf in p.items() if len(m) == 1 and strip(m[0]) is index]
    k = tm.lin_const(l.a[0])
    if len(comps) != 1 or len(idxs) != 1:
        return False
    (_, comp), cf = comps[0]
    if which == 0:
        return norm(comp, 2) == 0 and cf == 1 and idxs[0] == -1 and ((l.k == "le" and k == 0) or (l.k == "lt" and k == -1))
    return norm(comp, 2) == 1 and cf == -1 and idxs[0] == 1 and ((l.k == "lt" and k == 0) or (l.k == "le" and k == 1))


# ------------------------------------------------------------------ assignment
ASSIGN = "utilities.shuffle._associate_chunks_and_intervals_to_workers"


def split(P, R):
    f = P.func(ASSIGN)
    seq, ev = evaluate(P, f)
    R.unit(f.qual)
    evs = list(flow.walk(seq))
    gives = [(e, c) for e, c in evs if e.kind == "call" and e.name == "append" and e.args and c.loops and four(e.args[0])]
    if not gives:
        R.ob("split", "pieces", None, "no piece of a chunk found", f.where)
        return
    brk = [(e, c) for e, c in evs if e.kind == "break"]
    stores = [(e, c) for e, c in evs if e.kind == "setitem" and c.loops]
    chunk_gives = [(e, c) for e, c in evs if e.kind == "call" and e.name == "append" and e.args and c.loops and not four(e.args[0]) or (e.kind == "call" and e.name == "append" and e.args and c.loops and strip(e.args[0]).k == "elem" and mentions_param(e.args[0], f.params[1]))]
    for e, c in gives:
        s, a, b, nd = (strip(x) for x in four(e.args[0]))
        c0 = comp_of(s)
        if c0 is None:
            R.ob("split", "piece", None, show(e.args[0], 5), e.where)
            continue
        cur = c0[0]
        R.ob("split", "chunk range of a piece", norm(c0[1], 4) == 0 and comp_of(nd) == (cur, 3), f"{show(s, 4)} .. {show(nd, 4)}", e.where)
        R.ob("split", "start of a piece", comp_of(a) == (cur, 1), show(a, 5), e.where)
        rk = strip(e.recv)
        ridx = strip(rk.a[1]) if rk.k == "sub" else None
        lits = [strip(l) for g in c.guards for l in tm.literals(g)]
        width = tm.sub(mk("sub", cur, const(2), 0), mk("sub", cur, ONE, 0))
        # the quota the worker loses
        st = [(x, cc) for x, cc in stores if set(cc.guards) == set(c.guards) and strip(x.idx) is ridx and cc.loops == c.loops]
        whole = comp_of(b) == (cur, 2)
        piece = strip(tm.sub(b, a))
        if not st:
            R.ob("split", "quota falls", None if any(cc.loops == c.loops for x, cc in stores) else False, "the quota of the worker is not changed where the piece is given", e.where)
            continue
        x, cc = st[-1]
        q = mk("sub", x.base, x.idx, 0)
        left = strip(tm.sub(strip(mk("sub", strip(x.base), strip(x.idx), 0)), piece))
        given = strip(x.value)
        R.ob("split", "quota falls by the piece " + ("(whole rest)" if whole else "(part)"), strip(given) is left, f"piece of {show(piece, 4)}, quota becomes {show(given, 5)}", x.where)
        quota = strip(mk("sub", strip(x.base), strip(x.idx), 0))
        if whole:
            R.ob("split", "whole rest fits", any(implies_ge(l, quota, width) for l in lits) or (None if not any(mentions(l, lambda y: y is quota) for l in lits) else False), guards_str(c), e.where)
            left_loop = [y for y, yc in brk if set(yc.guards) >= set(c.guards) and yc.loops == c.loops]
            R.ob("split", "after the whole rest the next chunk follows", bool(left_loop) or None, "", e.where)
        else:
            R.ob("split", "a part is smaller than the rest", any(implies_ge(l, width, quota) for l in lits) or None, guards_str(c), e.where)
            R.ob("split", "a part fills the quota", piece is quota or None, show(piece, 4), e.where)
            # the rest
            lp = next((l for l in reversed(c.loops) for n in l.carried if cur is mk("phi", l.lid, n)), None)
            if lp is None:
                R.ob("split", "rest of the chunk", None, f"{show(cur, 3)} is not changed by a loop", e.where)
                continue
            name = cur.a[1]
            init, nxt = lp.carried[name]
            R.ob("split", "the first rest is the chunk's interval", strip(init).k == "elem" and mentions_param(init, f.params[2]), show(init, 4), e.where)
            m = 0
            for g, v in galts(nxt):
                v = strip(v)
                if v is cur:
                    continue
                k = four(v)
                if k is None:
                    continue
                m += 1
                k = [strip(y) for y in k]
                R.ob("split", "the rest starts where the piece ended", k[1] is b, f"{show(k[1], 5)} after {show(b, 5)}", e.where)
                R.ob("split", "the rest ends where the chunk's region ends", comp_of(k[2]) == (cur, 2), show(k[2], 5), e.where)
                R.ob("split", "the rest keeps the chunk range", comp_of(k[0]) == (cur, 0) and comp_of(k[3]) == (cur, 3), f"{show(k[0], 4)} .. {show(k[3], 4)}", e.where)
            R.ob("split", "the rest of the chunk is kept", m > 0, show(nxt, 4), e.where)
        # the chunk is named alongside its interval
        cg = [y for y, yc in evs if y.kind == "call" and y.name == "append" and y.args and set(yc.guards) == set(c.guards) and yc.loops == c.loops and y is not e and strip(y.recv).k == "sub" and strip(strip(y.recv).a[1]) is ridx and mentions_param(y.args[0], f.params[1])]
        R.ob("split", "piece and chunk go to the same worker", len(cg) == 1 or (None if not cg else False), f"{len(cg)} chunk(s) named with the piece", e.where)
    # no chunk without its interval
    for y, yc in evs:
        if y.kind == "call" and y.name == "append" and y.args and yc.loops and strip(y.recv).k == "sub" and strip(y.args[0]).k in ("elem", "sub") and mentions_param(y.args[0], f.params[1]) and not four(y.args[0]):
            mates = [x for x, xc in gives if set(xc.guards) <= set(yc.guards) or set(xc.guards) >= set(yc.guards)]
            R.ob("split", "a chunk is named with a piece of it", bool(mates) or False, guards_str(yc)[-200:], y.where)
    # leaving a chunk early
    for e, c in brk:
        lits = [strip(l) for g in c.guards for l in tm.literals(g)]
        gave = [x for x, xc in gives if set(xc.guards) <= set(c.guards) and xc.loops == c.loops]
        if gave or not c.loops:
            continue
        cur = comp_of(strip(four(gives[0][0].args[0])[0]))[0] if comp_of(strip(four(gives[0][0].args[0])[0])) else None
        if cur is None:
            continue
        w = strip(tm.sub(mk("sub", cur, const(2), 0), mk("sub", cur, ONE, 0)))
        last = [l for l in lits if (l.k == "eq" and any(fname(x) == "len" for x in l.a if x.k == "call")) or (l.k in ("le", "lt") and mentions_call(l, "len"))]
        empty = [l for l in lits if (l.k == "eq" and is_zero_width(l, w)) or (l.k in ("le", "lt") and implies_ge(l, ZERO, w))]
        known = [l for l in lits if mentions(l, lambda y: y is cur)]
        R.ob("split", "a chunk is left only when it is used up or no worker wants more", bool(last or empty) or (False if known else None), guards_str(c), e.where)


def is_zero_width(l, w):
    a, b = l.a
    d = strip(tm.sub(a, b))
    return d is w or d is strip(tm.neg(w))


def quotas(P, R):
    f = P.func(ASSIGN)
    seq, ev = evaluate(P, f)
    evs = list(flow.walk(seq))
    total = None
    for e, c in evs:
        if e.kind == "call" and e.callee == "sum" and mentions_param(e.term, f.params[2]) and not c.loops:
            total = strip(e.term)
            break
    if total is None:
        R.ob("all-assigned", "number of items", None, "no sum over the intervals", f.where)
        return
    ws = [w for w in spans(total) if is_interval(w[0])]
    R.ob("all-assigned", "number of items", bool(ws) and all((norm(h, 4), norm(l, 4)) == (2, 1) for _, h, l, _ in ws) and mentions_param(total, f.params[2]), show(total, 6), f.where)
    bs = mk("param", "batch_size")
    # the items left over
    n = 0
    for e, c in evs:
        if e.kind != "setitem" or not c.loops or strip(e.base).k == "sub":
            continue
        items = tm.poly_items(strip(e.value))
        old = [m for m, v in items.items() if len(m) == 1 and v == 1 and m[0].k in ("ite", "sub", "elem")]
        if not any(len(m) == 1 and strip(m[0]) is total for m in items):
            continue
        items = {m: v for m, v in items.items() if m not in old}
        extra = strip(e.value)
        for m in old:
            extra = strip(tm.sub(extra, m[0]))
        if not any(len(m) == 1 and strip(m[0]) is total for m in items):
            continue
        n += 1
        cf = [v for m, v in items.items() if len(m) == 1 and strip(m[0]) is total]
        rest = strip(tm.sub(total, extra))
        terms = [(m, v) for m, v in tm.poly_items(rest).items()]
        sums = [x for m, v in terms for x in m if x.k == "call" and fname(x) == "sum"]
        prev = [s for s in sums if mentions(s.a[1][0], lambda x: x.k == "phi")]
        scaled = all(v == 1 and [strip(y) is bs for y in m].count(True) == 1 and len(m) == 2 for m, v in terms)
        ok = cf == [1] and scaled and len(prev) == 1 and len(sums) == 2
        if not ok and mentions(rest, lambda x: x.k == "phi") and not sums:
            ok = None
        R.ob("all-assigned", "left over items", ok, show(extra, 6), e.where)
        # the list it is put into is handed on afterwards, not before
        at = [i for i, (x, _) in enumerate(evs) if x is e]
        puts = [i for i, (x, _) in enumerate(evs) if x.kind == "call" and x.name in ("extend", "append") and x.args and any(strip(y) is strip(e.base) for y in subterms(strip(x.args[0])))]
        if at and puts:
            R.ob("all-assigned", "left over items are in the quotas", any(i > at[0] for i in puts), "added after the quotas were taken over", e.where)
        lits = [strip(l) for g in c.guards for l in tm.literals(g)]
        drop = mk("param", "drop_last")
        R.ob("all-assigned", "given away unless drop_last", mk("not", drop) in lits or any(strip(l) is strip(not_(drop)) for l in lits), guards_str(c), e.where)
        extra_g = [l for l in lits if strip(l) is not strip(not_(drop)) and not (l.k in ("lt", "le") and mentions(l, lambda x: x is total)) and not mentions_attr(l, "world_size") and l.k != "iter"]
        R.ob("all-assigned", "always given away", not extra_g or None, " and ".join(show(l, 3) for l in extra_g), e.where)
        # once, by the last rank
        last = any(l.k == "eq" and mentions_attr(l, "world_size") and not tm.is_num(strip(tm.sub(l.a[0], l.a[1]))) and (tm.lin_const(tm.sub(l.a[0], l.a[1])) in (1, -1)) for l in lits)
        R.ob("all-assigned", "by the last rank", last or None, guards_str(c), e.where)
    R.ob("all-assigned", "the remainder is given to a worker", n > 0 or None, f"{n} place(s)", f.where)
    # quotas in items: batches times their size
    for t in [t for e, c in evs for t in event_terms(e, c)]:
        for x in subterms(t):
            if x.k == "comp" and mentions(x, lambda y: y is bs):
                body = [y for y in x.a if isinstance(y, T) and y.k != "comp" and mentions(y, lambda z: z is bs)]
                for y in body:
                    y = strip(y)
                    if y.k != "poly" or not mentions(y, lambda z: z.k in ("elem", "idx")) or any(z.k == "comp" for z in subterms(y)):
                        continue
                    ms = list(tm.poly_items(y).items())
                    R.ob("all-assigned", "quota of a worker in items", all(sum(strip(z) is bs for z in m) == 1 for m, _ in ms), show(y, 4), f.where)
    big = lambda x: (True if x.k in ("lt", "le") and tm.is_num(strip(tm.sub(tm.neg(bs), x.a[0]))) else False if x.k == "eq" and bs in x.a else None)
    whole = lambda y: isinstance(y, T) and strip(y).k == "poly" and all(sum(strip(z) is bs for z in m) == 1 for m in tm.poly_items(strip(y)))
    scaled = lambda t: any(y.k == "comp" and any(whole(z) for z in y.a) for y in subterms(t))
    for e, c in evs:
        if e.kind == "call" and e.name == "extend" and e.args and e.recv is not None and len(c.loops) == 1:
            a, r = strip(spec(e.args[0], big)), strip(spec(e.recv, big))
            if scaled(a) or scaled(r):
                R.ob("all-assigned", "all quotas in items", True if scaled(r) and scaled(a) else (False if r.k == "phi" and scaled(a) or a.k in ("comp", "list", "ite", "upd") and any(y.k == "comp" for y in subterms(a)) and not any(y.k == "phi" and any(z is y for z in (a, *[w for w in a.a if isinstance(w, T)])) for y in subterms(a)) and scaled(r) else None), f"{show(a, 3)} joined to {show(r, 3)}", e.where)
    # batches of a rank: base for everyone and one more for the first `rem`
    for e, c in evs:
        for t in event_terms(e, c):
            for x in subterms(t):
                if x.k != "ite":
                    continue
                l = strip(x.a[0])
                if l.k in ("lt", "le") and {strip(x.a[1]), strip(x.a[2])} == {ONE, ZERO}:
                    mods = [y for y in subterms(l) if y.k == "op" and y.a[0] == "Mod"]
                    ix = [strip(y) for y in subterms(l) if y.k == "idx"]
                    if len(mods) != 1 or not ix:
                        continue
                    got = []
                    for i in range(4):  # two batches are left over
                        r = tm.subst(x, {strip(mods[0]): const(2), ix[0]: const(i)})
                        got.append(int(float(r.a[1])) if tm.is_num(r) else None)
                    R.ob("all-assigned", "batches left in a rank", None if None in got else got == [1, 1, 0, 0], f"{show(x, 6)}: {got}", e.where)
                    num, div = strip(mods[0].a[1]), strip(mods[0].a[2])
                    fl = [y for y in subterms(t) if y.k == "op" and y.a[0] == "FloorDiv" and strip(y.a[2]) is div and mentions(y, lambda z: z is total)]
                    R.ob("all-assigned", "batches of a worker", any(strip(y.a[1]) is num for y in fl) if fl else None, show(x, 5), e.where)
                    return


def chunk_once(P, R):
    n = 0
    for cls in ("NoShuffle", "FullShuffle"):
        f = P.func(f"streaming.shuffle.{cls}.get_chunks_and_intervals_per_workers")
        seq, ev = evaluate(P, f, opaque={"_associate_chunks_and_intervals_to_workers", "_intra_node_chunk_shuffle"})
        R.unit(f.qual)
        for e, c in flow.walk(seq):
            if e.kind == "call" and (e.callee or "").endswith("_associate_chunks_and_intervals_to_workers"):
                n += 1
                a = passed(e, P.func(ASSIGN)) or {}
                ps = P.func(ASSIGN).params
                idxs, ivs = a.get(ps[1]), a.get(ps[2])
                if idxs is None or ivs is None:
                    R.ob("chunk-once", cls, None, "arguments not understood", e.where)
                    continue
                later = mentions_call(idxs, "_intra_node_chunk_shuffle") or mentions_call(idxs, "_associate_chunks_and_intervals_to_workers")
                R.ob("chunk-once", f"{cls}: {'chunks of the later epochs on several nodes' if later else 'chunks'}", dup_free(P, idxs), show(idxs, 4), e.where)
                R.ob("aligned", f"{cls}: {'later epochs' if later else 'first'}", aligned(idxs, ivs), f"{show(idxs, 3)} / {show(ivs, 4)}", e.where)
    need(range(n), "assignments", 2)


def dup_free(P, t, depth=0):
    t = peel(strip(t))
    if depth > 6:
        return None
    if t.k == "call":
        nm = fname(t).split(".")[-1]
        if nm == "range":
            return True
        if nm in ("permutation", "permuted", "sorted", "reversed", "list", "tuple", "array", "asarray", "shuffled") and t.a[1]:
            return dup_free(P, t.a[1][0], depth + 1)
        if nm in ("set", "frozenset", "fromkeys", "unique"):
            return True
        if nm == "_intra_node_chunk_shuffle":
            g = P.func("utilities.shuffle._intra_node_chunk_shuffle")
            seq, ev = evaluate(P, g, policy=lambda c, d, n: d.module is c.module)
            # the chunks of the workers are concatenated; a chunk shared by workers is named by each of them
            if mentions_call(ev.ret, "fromkeys", "set", "unique", "frozenset") or any(
                    e.kind == "call" and e.callee in ("set", "frozenset", "dict.fromkeys", "numpy.unique") for e, c in flow.walk(seq)) or any(
                    e.kind == "call" and e.name in ("append", "extend") and any(strip(l).k == "not" and strip(strip(l).a[0]).k == "in" for x in c.guards for l in tm.literals(x)) for e, c in flow.walk(seq)):
                return True
            return False
    if t.k == "comp":
        return None
    return None


def aligned(idxs, ivs):
    """intervals picked by the same list of chunks, or both as they are"""
    i, v = peel(strip(idxs)), peel(strip(ivs))
    if v.k == "sub":
        return strip(v.a[1]) is i or strip(v.a[1]) is strip(idxs)
    if v.k == "comp":
        return None if not mentions(v, lambda x: x is i) else True
    if i.k == "call" and fname(i) == "range":
        return v.k == "call" and fname(v).split(".")[-1] == "get_chunk_intervals"
    return False if v.k == "call" and fname(v).split(".")[-1] == "get_chunk_intervals" else None


# ------------------------------------------------------------------ wiring
def wiring(P, R):
    n = wired(P, R, "wired", "region_of_interest")
    n += wired(P, R, "wired", "subsampled_files")
    need(range(n), "calls that hand on regions or files", 6)
    f = P.func("streaming.item_loader.BaseItemLoader.setup")
    for q, g in sorted(P.funcs.items()):
        if g.name == "setup" and g.cls is not None and g.cls.is_sub("BaseItemLoader") and "region_of_interest" in g.params:
            seq, ev = evaluate(P, g, policy=lambda c, d, n: d.name == "setup")
            st = [e for e, c in flow.walk(seq) if e.kind == "store" and e.attr == "region_of_interest" and mentions_param(e.value, "region_of_interest")]
            R.ob("wired", f"{g.cls.name}.setup keeps the regions", bool(st), "", g.where)
    f = P.func("streaming.dataset.StreamingDataset.__init__")
    for e, c in own_events(P, f):
        if e.kind == "store" and e.attr in ("subsampled_files", "region_of_interest") and mentions_call(e.value, "subsample_streaming_dataset"):
            v = strip(e.value)
            if v.k == "sub":
                R.ob("wired", f"dataset takes {e.attr}", v.a[1] is const(0 if e.attr == "subsampled_files" else 1), show(v, 3), e.where)
    # chunks are those of the selected files
    f = P.func("streaming.config.ChunksConfig.__init__")
    st = [(e, c) for e, c in own_events(P, f) if e.kind == "store" and e.attr == "_chunks" and e.value is not NONE]
    need(st, "chunks of the configuration")
    for e, c in st:
        for g, v in galts(e.value):
            lits = list(tm.literals(g)) + [l for x in c.guards for l in tm.literals(x)]
            none = any(is_none_lit(l, mk("param", "subsampled_files")) for l in lits)
            sel = mentions_call(v, "load_subsampled_chunks") or mentions_param(v, "subsampled_files")
            R.ob("wired", "chunks of the configuration", True if sel or none else (None if not lits else False), f"{show(v, 3)} when {' and '.join(show(l, 3) for l in lits)}", e.where)


def positions(P, R):
    f = P.func("streaming.config.load_subsampled_chunks")
    seq, ev = evaluate(P, f)
    R.unit(f.qual)
    files, chunks = mk("param", f.params[0]), mk("param", f.params[1])
    n = 0
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name == "append" and e.recv is not None and strip(e.recv).k == "sub" and mentions(e.args[0], lambda x: x is files):
            n += 1
            k = strip(strip(e.recv).a[1])
            v = strip(e.args[0])
            R.ob("subsampled-order", "positions by name", k.k == "elem" and v.k == "idx" and strip(k.a[0]) is files and strip(v.a[0]) is files, f"[{show(k, 3)}] gets {show(v, 3)}", e.where)
        if e.kind == "setitem" and mentions(e.value, lambda x: x is chunks):
            n += 1
            i, v = strip(e.idx), strip(e.value)
            if i.k == "idx":
                R.ob("subsampled-order", "chunk stored at its positions", False, f"{show(v, 3)} stored at {show(i, 4)}", e.where)
            if i.k == "elem" and strip(i.a[0]).k == "sub":
                key = strip(strip(i.a[0]).a[1])
                R.ob("subsampled-order", "chunk stored at its positions", is_key(key, "filename") and strip(key.a[0]) is v, f"positions of {show(key, 3)} get {show(v, 3)}", e.where)
    if not n:
        v = strip(ev.ret)
        R.ob("subsampled-order", "chunks by name", None, show(v, 4), f.where)
