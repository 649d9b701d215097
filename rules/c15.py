"""C15: counters of a mix of datasets follow what was drawn and yielded."""
from .common import *

IT = "streaming.combined._CombinedDatasetIterator"
CO = "streaming.combined.CombinedStreamingDataset"
DL = "streaming.dataloader.StreamingDataLoader"
SAMPLES, COUNTS = const("__SAMPLES__"), const("__NUM_SAMPLES_YIELDED__")


def check(P, R):
    R.rule("draw", "a sample returned by the mix was drawn from one dataset and raised that dataset's counter, and only that, by one")
    R.rule("choice", "the dataset is drawn among those left with their own weights; resuming repeats one choice per sample already yielded, from a generator seeded anew")
    R.rule("leave", "a finished dataset loses its place and its weight together, the rest keep their ratio; the mix ends with the first finished dataset, or with the last when iterating over all")
    R.rule("record", "a sample travels to the loader together with the mix's counters, and the counters of the last sample of a batch stand for the batch")
    R.rule("yield", "the loader yields every batch once, and has counted it before")
    R.rule("who", "the counters of a batch are kept under the worker that produced the batch")
    R.rule("saved", "the loader saves for each dataset what was recorded for that dataset, over all workers")
    R.rule("per-worker", "the position saved for a dataset of a mix tells how many of its samples each worker had drawn")
    R.rule("afresh", "what loading a state sets is undone when an epoch starts afresh")
    R.rule("forward", "a setting of the mix is handed unchanged to each of its datasets")
    R.part(P, draw, choice, leave, record, yields, saved, afresh, forward)


def is_iter_of(t):
    """self._dataset_iters[i] -> i"""
    t = strip(t)
    if t.k == "sub" and root_attr(strip(t.a[0])) == "_dataset_iters":
        return strip(t.a[1])
    return None


def draw(P, R):
    f = P.func(f"{IT}.__next__")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    got, bad, other = [], [], []

    def step(st, e):
        if e.kind == "call" and (e.callee == "next" or e.name in ("next", "__next__")):
            arg = e.args[0] if e.args else e.recv
            i = is_iter_of(arg) if arg is not None else None
            if i is not None:
                got.append(e)
                if st[0] == "drawn":
                    bad.append((e, "a second sample is drawn before the first was counted"))
                elif st[0] == "counted":
                    bad.append((e, "a counted sample is dropped"))
                return [("drawn", i)]
        if e.kind == "setitem" and root_attr(strip(e.base)) == "_num_samples_yielded":
            i, v = strip(e.idx), strip(e.value)
            inc = tm.sub(v, strip(mk("sub", e.base, e.idx, 0)))
            old = [x for x in subterms(v) if x.k == "sub" and root_attr(strip(x.a[0])) == "_num_samples_yielded"]
            if len(old) == 1 and strip(old[0].a[1]) is i and not tm.is_num(inc):
                inc = tm.sub(v, old[0])
            if not (tm.is_num(inc) and float(inc.a[1]) == 1):
                bad.append((e, f"the counter becomes {show(v, 4)}"))
            if st[0] != "drawn":
                bad.append((e, "counted without a sample drawn" if st[0] == "none" else "counted twice"))
                return [("counted", i)]
            if st[1] is not i:
                bad.append((e, f"the counter of {show(i, 3)} is raised for a sample of {show(st[1], 3)}"))
            return [("counted", i)]
        if e.kind == "store" and e.attr == "_num_samples_yielded":
            bad.append((e, "the counters are replaced"))
        return [st]

    out = flow.Typestate(step).run(seq, [("none", None)])
    for st, _ in out["ret"] | out["norm"]:
        other.append(st)
        if st[0] != "counted":
            bad.append((None, "a sample is returned uncounted" if st[0] == "drawn" else "returned without drawing"))
    for st, _ in out["raise"]:
        if st[0] == "counted":
            bad.append((None, "a counted sample is not returned"))
    need(got, "draws of the mix")
    need(other, "samples returned by the mix")
    R.ob("draw", "__next__", not bad, "; ".join(m for _, m in bad[:3]), bad[0][0].where if bad and bad[0][0] else f.where)
    # what is returned is the sample drawn
    for g, v in galts(ev.ret):
        v = strip(v)
        if v.k == "dict":
            v = dict_get(v, "__SAMPLES__")
        ok = v is not None and strip(v).k in ("call", "exc", "maybe") and (fname(strip(v)) == "next" or mentions_call(v, "next"))
        R.ob("draw", "sample returned", ok if ok or v is None or v.k != "phi" else None, show(v, 3) if v is not None else "no sample", f.where)
    # counters start at zero, or at the recorded ones
    g = P.func(f"{IT}.__init__")
    seq, ev = evaluate(P, g, opaque={"_get_dataset_index"})
    st = [(e, c) for e, c in flow.walk(seq) if e.kind == "store" and e.attr == "_num_samples_yielded"]
    need(st, "initial counters")
    for e, c in st:
        for gg, v in galts(e.value):
            v = strip(v)
            if v is mk("param", "num_samples_yielded") or (v.k == "call" and fname(v) in ("list", "copy.deepcopy", "copy.copy") and mentions_param(v, "num_samples_yielded")):
                continue
            if v.k == "or":
                v = strip(v.a[0][-1])
            R.ob("draw", "counters at the beginning", strip(v.a[1]) is ZERO if v.k == "comp" else None, show(v, 4), e.where)
    it = [e for e, c in flow.walk(seq) if e.kind == "store" and e.attr == "_dataset_iters"]
    need(it, "iterators of the datasets")
    for e in it:
        v = strip(e.value)
        ok = v.k == "comp" and len(v.a[2]) == 1 and v.a[2][0][1] is TRUE and strip(v.a[2][0][0]) in (mk("param", "datasets"),) and mentions_call(v.a[1], "iter", "__iter__") and any(x.k == "elem" for x in subterms(v.a[1]))
        if not ok and v.k == "comp" and mentions_attr(v, "_datasets") and v.a[2][0][1] is TRUE:
            ok = True
        R.ob("draw", "one iterator per dataset, in order", ok if ok or v.k != "phi" else None, show(v, 4), e.where)


def left(t, attr):
    """the entries of self.<attr> that are not None, all of them: [x for x in self.attr if x is not None]"""
    t = peel(strip(t))
    if t.k != "comp":
        return None
    if len(t.a[2]) != 1:
        return None
    it, cond = t.a[2][0]
    if root_attr(strip(it)) != attr:
        return False if root_attr(strip(it)) else None
    ls = [strip(x) for x in tm.literals(cond)]
    none = [x for x in ls if x.k == "not" and x.a[0].k in ("is", "eq") and NONE in x.a[0].a]
    if len(ls) != 1:
        return False if not ls else None
    return bool(none) and strip(t.a[1]).k == "elem"


def choice(P, R):
    cls = P.cls(IT)
    n = 0
    for m in P.funcs.values():
        if m.cls is not cls:
            continue
        for e, c in own_events(P, m):
            if e.kind == "call" and e.name in ("choices", "choice", "sample", "random", "shuffle", "randint") and (e.recv is None or root_attr(strip(e.recv)) == "_rng" or "random" in dotted(strip(e.recv))):
                n += 1
                R.ob("choice", f"{m.name}: own generator", e.recv is not None and root_attr(strip(e.recv)) == "_rng", show(e.recv, 3) if e.recv is not None else "", e.where)
                if e.name == "choices":
                    pop = e.args[0] if e.args else e.kw.get("population")
                    w = e.kw.get("weights") if e.kw.get("weights") is not None else (e.args[1] if len(e.args) > 1 else None)
                    R.ob("choice", f"{m.name}: among the datasets left", left(pop, "_dataset_indexes") if pop is not None else None, show(pop, 5) if pop is not None else "", e.where)
                    R.ob("choice", f"{m.name}: with their weights", False if w is None or w is NONE else left(w, "_weights"), show(w, 5) if w is not None else "no weights", e.where)
    need(range(n), "random choices of a dataset")
    g = P.func(f"{IT}.__init__")
    st = [e for e, c in own_events(P, g) if e.kind == "store" and e.attr == "_rng"]
    need(st, "generator of the mix")
    for e in st:
        v = strip(e.value)
        ok = v.k in ("call", "new") and fname(v).endswith("Random") and len(v.a[1]) == 1 and strip(v.a[1][0]) is mk("param", "seed")
        R.ob("choice", "seeded anew", ok, show(v, 4), e.where)
    # replay: one choice per sample already yielded, by the function that chooses for __next__
    nx = P.func(f"{IT}.__next__")
    callees = {target_of(P, e) for e, c in own_events(P, nx) if e.kind == "call"} - {None}
    drawers = {t for t in callees if any(e.kind == "call" and e.name == "choices" for e, c in flow.walk(evaluate(P, t)[0]))}
    reps = [(e, c) for e, c in own_events(P, g) if e.kind == "call" and target_of(P, e) is not None and not target_of(P, e).is_helper and target_of(P, e).cls is cls and any(x.kind == "call" and x.name == "choices" for x, _ in flow.walk(evaluate(P, target_of(P, e))[0]))]
    inl = [(e, c) for e, c in own_events(P, g) if e.kind == "call" and e.name == "choices"]
    R.must("choice", "replay", reps + inl, "the choices of the samples already yielded are not replayed", g.where)
    for e, c in reps:
        if not drawers:
            continue
        R.ob("choice", "replay chooses as for a sample", target_of(P, e) in drawers, f"{target_of(P, e).name} instead of {', '.join(sorted(t.name for t in drawers))}", e.where)
        it = [strip(l.iter) for l in c.loops if l.iter is not None]
        ok = None
        if len(it) == 1 and it[0].k == "call" and fname(it[0]) == "range" and len(it[0].a[1]) == 1:
            b = peel(strip(it[0].a[1][0]))
            ok = b.k == "call" and fname(b) in ("sum", "numpy.sum") and len(b.a[1]) == 1 and total_of(b.a[1][0])
            if b.k == "phi":
                ok = None
        elif not it:
            ok = False
        R.ob("choice", "replay of each sample", ok, show(it[0], 4) if it else "not in a loop", e.where)
        for gd in c.guards:
            x = strip(gd)
            fine = mentions_param(x, "num_samples_yielded") or mentions_attr(x, "_num_samples_yielded") or any(x is strip(not_(y)) for y in [])
            R.ob("choice", "replay whenever resuming", True if fine else None, show(x, 3), e.where)


def total_of(x):
    x = peel(strip(x))
    if x.k == "comp":
        el = [y for y in subterms(x) if y.k == "elem"]
        return bool(el) and all(total_of(y.a[0]) for y in el) and all(c is TRUE for _, c in x.a[2])
    return x is mk("param", "num_samples_yielded") or root_attr(x) == "_num_samples_yielded" or mentions_param(x, "num_samples_yielded")


def leave(P, R):
    f = P.func(f"{IT}.__next__")
    seq, ev = evaluate(P, f)
    over = lambda l: is_attr(strip(l), "_iterate_over_all")
    tries = []

    def find(s, guards):
        for it in s.items:
            if isinstance(it, If):
                find(it.then, guards + tuple(tm.literals(it.cond)))
                find(it.els, guards + tuple(tm.literals(not_(it.cond))))
            elif isinstance(it, Loop):
                find(it.body, guards)
            elif isinstance(it, Try):
                if any(e.kind == "call" and e.callee == "next" for e, c in flow.walk(it.body)):
                    tries.append((it, guards))
                for x in [it.body, it.orelse, it.final] + [h for _, _, h, _ in it.handlers]:
                    find(x, guards)
            elif isinstance(it, (With, Inline)):
                find(it.body, guards)

    find(seq, ())
    need(tries, "handling of a finished dataset")
    for t, guards in tries:
        where = f"{f.module.relpath}:{t.node.lineno}" if hasattr(f.module, "relpath") else f.where
        R.ob("leave", "ends with the first unless iterating over all", any(over(g) for g in guards), "a finished dataset is dealt with although the mix has to end", where)
        drawn = [is_iter_of(e.args[0]) for e, c in flow.walk(t.body) if e.kind == "call" and e.callee == "next" and e.args]
        for types, name, h, hn in t.handlers:
            def step(st, e):
                if e.kind == "setitem" and strip(e.value) is NONE and root_attr(strip(e.base)) in ("_dataset_indexes", "_weights"):
                    return [st | {(root_attr(strip(e.base)), strip(e.idx))}]
                if e.kind == "store" and e.attr == "_weights" and e.base.k == "self":
                    return [frozenset(x for x in st if x[0] != "ratio") | {("ratio", strip(e.value))}]
                return [st]
            out = flow.Typestate(step).run(h, [frozenset()])
            for k in ("norm", "cont"):
                for s, _ in out[k]:
                    d = {}
                    for a, i in s:
                        d.setdefault(a, []).append(i)
                    ii, ww = d.get("_dataset_indexes", []), d.get("_weights", [])
                    same = len(ii) == 1 and len(ww) == 1 and ii[0] is ww[0]
                    R.ob("leave", "place and weight together", same, f"places {[show(x, 2) for x in ii]}, weights {[show(x, 2) for x in ww]}", where)
                    if same:
                        R.ob("leave", "the finished one", drawn_index(ii[0], drawn), show(ii[0], 4), where)
                    for v in d.get("ratio", []):
                        R.ob("leave", "the rest keep their ratio", ratio(v), show(v, 6), where)
            # the mix ends only when no other dataset is left
            ends = [(e, c) for e, c in flow.walk(h) if e.kind == "raise"]
            R.must("leave", "the mix ends with the last dataset", ends, "", where)
            for e, c in ends:
                ok = any(last_one(g) for g in c.guards)
                R.ob("leave", "ends with the last dataset only", ok if ok or not c.guards or not any(g.k in ("phi", "call") for g in c.guards) else None, guards_str(c), e.where)


def drawn_index(i, drawn):
    i = strip(i)
    if i in drawn:
        return True
    if i.k == "maybe":
        return True  # the index chosen in the body that was interrupted
    return None if i.k in ("phi", "ite") else False


def last_one(g):
    """literal: at most one dataset is left"""
    g = strip(g)
    if g.k == "eq":
        a, b = g.a[0], g.a[1]
        for x, y in ((a, b), (b, a)):
            if x is ONE or x is ZERO:
                return y.k == "call" and fname(y) in ("len", "sum") and (strip(y.a[1][0]).k == "maybe" or left(y.a[1][0], "_dataset_indexes") in (True,) or mentions_attr(y, "_dataset_indexes", "_weights"))
    if g.k in ("le", "lt"):
        ln = [x for x in subterms(g) if x.k == "call" and fname(x) == "len" and mentions_attr(x, "_dataset_indexes")]
        if len(ln) == 1:
            return implies_ge(g, ONE, ln[0])
    return False


def ratio(v):
    """[None if w is None else w / sum(of those left) for w in self._weights]"""
    if v.k != "comp":
        return None
    el = None
    divs = [x for x in subterms(v) if x.k == "op" and x.a[0] == "Div"]
    if not divs:
        return False
    for d in divs:
        num, den = strip(d.a[1]), strip(d.a[2])
        if not (num.k == "elem" and root_attr(strip(num.a[0])) == "_weights"):
            return False
        sums = [x for x in subterms(den) if x.k == "call" and fname(x) in ("sum", "numpy.sum")]
        if len(sums) != 1 or strip(den) is not sums[0]:
            return None
        if left(sums[0].a[1][0], "_weights") is False:
            return False
    return True


def record(P, R):
    f = P.func(f"{IT}.__next__")
    seq, ev = evaluate(P, f)
    n = 0
    for g, v in galts(ev.ret):
        v = strip(v)
        if v.k != "dict":
            continue
        n += 1
        s, c = dict_get(v, "__SAMPLES__"), dict_get(v, "__NUM_SAMPLES_YIELDED__")
        R.ob("record", "sample", s is not None and mentions_call(s, "next"), show(s, 3) if s is not None else "missing", f.where)
        R.ob("record", "counters", c is not None and root_attr(peel_copy(c)) == "_num_samples_yielded", show(c, 4) if c is not None else "missing", f.where)
    if not n and not mentions(ev.ret, lambda x: x is const("__NUM_SAMPLES_YIELDED__")):
        R.ob("record", "counters", False, "a sample is returned without the counters of the datasets", f.where)
    else:
        need(range(n), "samples with counters")
    f = P.func("streaming.dataloader.StreamingDataLoaderCollateFn.__call__")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    for g, v in galts(ev.ret):
        v = strip(v)
        if v.k == "dict":
            s, c = dict_get(v, "__SAMPLES__"), dict_get(v, "__NUM_SAMPLES_YIELDED__")
            ok = s is not None and mentions_call(s, "collate_fn", "default_collate") and any(x.k == "comp" and every_item(x) for x in subterms(s))
            R.ob("record", "custom collation: every sample", ok, show(s, 5) if s is not None else "missing", f.where)
            its = [x for x in subterms(c) if x.k == "sub" and strip(x.a[0]) is mk("param", "items")] if c is not None else []
            ok = bool(its) and all(is_const(strip(x.a[1])) for x in its) and any(x.k == "sub" and x.a[1] is COUNTS for x in subterms(c))
            R.ob("record", "custom collation: counters of the last sample", ok and all(strip(x.a[1]) is const(-1) for x in its) if its else None if c is not None else False, show(c, 5) if c is not None else "missing", f.where)
        else:
            R.ob("record", "custom collation: plain samples", mentions_call(v, "collate_fn", "default_collate") and len(v.a) > 1 and v.k == "call" and (strip(v.a[1][0]) is mk("param", "items")) if v.a[1] else None, show(v, 4), f.where)
    # counts are asked for before a combined dataset is iterated
    f = P.func(f"{DL}.__iter__")
    seq, ev = evaluate(P, f, policy=lambda *a: False)
    seen, bad = before(seq, lambda e: e.kind == "call" and e.name == "_set_use_streaming_dataloader" and e.args and e.args[0] is TRUE, lambda e: e.kind == "setitem" and root_attr(strip(e.base)) == "_num_samples_yielded_combined")
    R.ob("record", "counters asked for", bool(seen) and not bad, "", f.where)


def peel_copy(t):
    t = strip(t)
    while t.k == "call" and fname(t) in ("copy.deepcopy", "copy.copy", "list", "deepcopy", "tuple", "copy") and (t.a[1] or t.a[0].k == "meth"):
        t = strip(t.a[1][0]) if t.a[1] else strip(t.a[0].a[0])
    return t


def every_item(x):
    return len(x.a[2]) == 1 and strip(x.a[2][0][0]) is mk("param", "items") and x.a[2][0][1] is TRUE


def yields(P, R):
    f = P.func(f"{DL}.__iter__")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    loops = []

    def find(s, guards):
        for it in s.items:
            if isinstance(it, Loop):
                if any(e.kind == "yield" for e, c in flow.walk(it.body)):
                    loops.append((it, guards))
                else:
                    find(it.body, guards)
            elif isinstance(it, If):
                find(it.then, guards + tuple(tm.literals(it.cond)))
                find(it.els, guards + tuple(tm.literals(not_(it.cond))))
            elif isinstance(it, Try):
                for x in [it.body, it.orelse, it.final] + [h for _, _, h, _ in it.handlers]:
                    find(x, guards)
            elif isinstance(it, (With, Inline)):
                find(it.body, guards)

    find(seq, ())
    need(loops, "loops over the batches")
    nkeys = 0
    plain = mixed = 0
    for lp, guards in loops:
        batch = None
        bad = []
        keys = []

        def step(st, e):
            y, num, rec, wk = st
            if e.kind == "yield":
                if y:
                    bad.append((e, "a batch is yielded twice"))
                if wk != 1:
                    bad.append((e, "the worker is not moved on by one before the batch" if wk == 0 else "the worker is moved on twice"))
                sample = strip(e.value)
                if sample.k == "sub" and sample.a[1] is SAMPLES and rec != 1:
                    bad.append((e, "the counters of the batch are not recorded before it is yielded"))
                if sample.k == "sub" and sample.a[1] is not SAMPLES:
                    bad.append((e, f"{show(sample, 3)} is yielded"))
                return [(1, num, rec, wk)]
            if e.kind == "store" and e.attr == "_num_samples_yielded_streaming":
                d = [x for x in subterms(e.value) if x.k == "attr" and x.a[1] == "_num_samples_yielded_streaming"]
                inc = tm.sub(strip(e.value), strip(d[0])) if d else None
                if inc is None or not is_attr(strip(inc), "batch_size"):
                    bad.append((e, f"the counter becomes {show(e.value, 4)}"))
                if y:
                    bad.append((e, "counted after the batch is yielded"))
                return [(y, min(2, num + 1), rec, wk)]
            if e.kind == "setitem" and root_attr(strip(e.base)) == "_num_samples_yielded_combined":
                keys.append(e)
                if y:
                    bad.append((e, "recorded after the batch is yielded"))
                if not any(x.k == "sub" and x.a[1] is COUNTS for x in subterms(e.value)):
                    bad.append((e, f"recorded from {show(e.value, 3)} and not from the batch"))
                if wk == 0:
                    bad.append((e, "recorded under the worker of the batch before"))
                return [(y, num, 1, wk)]
            if e.kind == "call" and e.callee == "next" and mentions_attr(e.args[0], "_worker_idx_iter", "_worker_idx"):
                return [(y, num, rec, min(2, wk + 1))]
            if e.kind == "call" and e.callee == "next" and e.args and mentions_call(e.args[0], "cycle"):
                return [(y, num, rec, min(2, wk + 1))]
            return [st]

        out = flow.Typestate(step).run(lp.body, [(0, 0, 0, 0)])
        ends = [s for k in ("norm", "cont") for s, *_ in out[k]]
        R.ob("yield", "every batch", bool(ends) and all(s[0] == 1 for s in ends), "a batch is taken and not yielded", f.where)
        stream = any(not strip(g).k == "not" and "isinst" in show(g, 2) for g in guards) or not keys
        if not keys:
            plain += 1
            R.ob("yield", "counted once per batch", bool(ends) and all(s[1] == 1 for s in ends), f"{[s[1] for s in ends]} times", f.where)
        else:
            mixed += 1
        R.ob("yield", "counted before", not bad, "; ".join(sorted({m for _, m in bad})[:3]), bad[0][0].where if bad else f.where)
        for e in {id(x): x for x in keys}.values():
            nkeys += 1
            v = e.value
            pick = [x for x in subterms(v) if x.k == "sub" and is_const(strip(x.a[1])) and x.a[1] is not COUNTS]
            R.ob("record", "counters of the last sample of the batch", all(strip(x.a[1]) is const(-1) for x in pick), show(v, 6), e.where)
            k = strip(e.idx)
            rot = mentions_call(k, "cycle") or mentions_attr(k, "_worker_idx_iter", "_latest_worker_idx")
            R.ob("who", "StreamingDataLoader: batches attributed by rotation", not rot if rot or not k.k == "phi" else None, "workers that have finished are not left out of the rotation, the loader leaves them out", e.where)
    need(range(nkeys), "recorded counters")
    need(range(plain), "loop over the batches of one dataset")


def saved(P, R):
    f = P.func(f"{DL}.state_dict")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"state_dict"})
    n = 0
    for e, c in flow.walk(seq):
        if e.kind == "setitem" and not e.inlined and len(c.loops) >= 1:
            n += 1
            v, i = strip(e.value), strip(e.idx)
            cur = strip(mk("sub", e.base, e.idx, 0))
            inc = strip(tm.sub(v, cur))
            ok = inc.k in ("elem", "sub") and mentions_attr(inc, "_num_samples_yielded_combined")
            if ok and inc.k == "elem":
                ok = i.k == "idx" and strip(i.a[0]) is strip(inc.a[0])
            elif ok:
                ok = strip(inc.a[1]) is i
            R.ob("saved", "total of a dataset", ok, f"[{show(i, 4)}] += {show(inc, 5)}", e.where)
            R.ob("saved", "over all workers", any(l.iter is not None and root_attr(base_of_iter(l.iter)) == "_num_samples_yielded_combined" and not any(x.k == "slice" for x in subterms(l.iter)) for l in c.loops) or None, "", e.where)
            if ok:
                R.ob("per-worker", "StreamingDataLoader: one sum of all workers per dataset", False, "the workers had drawn different numbers, and each skips an equal share when resuming", e.where)
    if not n:
        sums = [x for x in subterms(ev.ret) if x.k == "call" and fname(x) == "sum" and mentions_attr(x, "_num_samples_yielded_combined")]
        handed = [x for e, c in flow.walk(seq) if e.kind == "call" and e.name == "state_dict" for x in [*e.args, *[v for _, v in (e.kw.items() if isinstance(e.kw, dict) else e.kw or [])]]]
        if not sums and handed and not any(mentions_attr(x, "_num_samples_yielded_combined") or mentions(x, lambda y: y.k == "phi") for x in handed):
            R.ob("saved", "total of a dataset", False, "the counters of the workers aren't given to the dataset", f.where)
        for x in sums:
            R.ob("per-worker", "StreamingDataLoader: one sum of all workers per dataset", False, "the workers had drawn different numbers, and each skips an equal share when resuming", f.where)
    for g, v in galts(ev.ret):
        v = strip(v)
        x = dict_get(v, "num_samples_yielded") if v.k == "dict" else None
        if x is not None and mentions_attr(x, "_num_samples_yielded_combined"):
            R.ob("saved", "counters of each worker", root_attr(peel_copy(x)) == "_num_samples_yielded_combined", show(x, 4), f.where)
    # per dataset
    f = P.func("streaming.combined._state_dict")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    m = 0
    sd = P.func("streaming.dataset.StreamingDataset.state_dict")
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name == "state_dict" and e.recv is not None:
            m += 1
            a = passed(e, sd) or {}
            r = strip(e.recv)
            v = a.get("num_samples_yielded")
            ok = None
            if v is not None:
                v = strip(v)
                ok = v.k == "sub" and strip(v.a[0]) is mk("param", "num_samples_yielded") and same_place(r, strip(v.a[1]))
                if not ok and v.k == "elem":
                    ok = strip(v.a[0]) is mk("param", "num_samples_yielded") or None
            R.ob("saved", "count of a dataset", False if v is None else ok, f"{show(r, 3)} gets {show(v, 4) if v is not None else 'none'}", e.where)
            for p in ("num_workers", "batch_size"):
                w = a.get(p)
                R.ob("saved", f"{p} of a dataset", w is not None and strip(w) is mk("param", p), show(w, 3) if w is not None else "missing", e.where)
    need(range(m), "states of the datasets")
    v = strip(ev.ret)
    if v.k == "comp":
        ks = [x for x in subterms(v) if x.k == "call" and fname(x) == "str"]
        R.ob("saved", "under its number", bool(ks) and all(strip(x.a[1][0]).k == "idx" for x in ks) if ks else None, show(v, 4), f.where)
    # the counters come from where they were recorded
    for q in (f"{CO}.state_dict", f"{IT}.state_dict"):
        g = P.func(q)
        t = P.func("streaming.combined._state_dict")
        for e, c in own_events(P, g):
            if target_of(P, e) is t:
                a = passed(e, t) or {}
                v = strip(a.get("num_samples_yielded")) if a.get("num_samples_yielded") is not None else None
                ok = v is not None and (v is mk("param", "num_samples_yielded") or root_attr(v) == "_num_samples_yielded")
                R.ob("saved", f"{q.split('.')[-2]}: counters", ok, show(v, 3) if v is not None else "missing", e.where)
                for p in ("num_workers", "batch_size"):
                    w = a.get(p)
                    R.ob("saved", f"{q.split('.')[-2]}: {p}", w is not None and strip(w) is mk("param", p), show(w, 3) if w is not None else "missing", e.where)


def same_place(r, i):
    """i is the position of dataset r"""
    if r.k == "elem":
        return i.k == "idx" and strip(i.a[0]) is strip(r.a[0])
    if r.k == "sub":
        return strip(r.a[1]) is i
    return None


def base_of_iter(t):
    t = strip(t)
    while t.k == "call" and t.a[0].k == "meth" and t.a[0].a[1] in ("keys", "values", "items"):
        t = strip(t.a[0].a[0])
    while t.k == "call" and t.a[1] and fname(t) in ("list", "sorted", "enumerate"):
        t = strip(t.a[1][0])
    return t


def afresh(P, R):
    n = 0
    for q in ("streaming.dataset.StreamingDataset", CO):
        c = P.cls(q)
        ld, rs, ini = c.find("load_state_dict"), c.find("reset_state_dict"), c.find("__init__")
        R.unit(rs.qual)
        attrs = {e.attr for e, cx in own_events(P, ld) if e.kind == "store" and e.base.k == "self"}
        need(attrs, f"state loaded by {c.name}")
        first = {e.attr: strip(e.value) for e, cx in own_events(P, ini) if e.kind == "store" and e.base.k == "self" and not cx.guards}
        seq, ev = evaluate(P, rs, policy=lambda a, b, d: d < 4 and b.cls is rs.cls)
        for a in sorted(attrs):
            n += 1

            def step(st, e, a=a):
                if e.kind == "store" and e.attr == a and e.base.k == "self":
                    return [strip(e.value)]
                return [st]

            out = flow.Typestate(step).run(seq, ["kept"])
            ends = {s for k in ("norm", "ret") for s, *_ in out[k]}
            empty = lambda v: v is NONE or v is first.get(a) or (isinstance(v, T) and v.k in ("dict", "list") and not v.a[0])
            R.ob("afresh", f"{c.name}.{a}", bool(ends) and all(s != "kept" and empty(s) for s in ends), "the next epoch continues from the loaded state", rs.where)
    need(range(n), "loaded states")


def forward(P, R):
    c = P.cls(CO)
    n = 0
    for name in ("set_epoch", "set_shuffle", "set_batch_size", "set_num_workers", "set_drop_last", "reset_state_dict"):
        f = c.find(name)
        if f is None:
            R.ob("forward", name, False, "not there", "")
            continue
        seq, ev = evaluate(P, f, policy=lambda a, b, d: d < 4 and b.cls is f.cls)
        calls = [(e, cx) for e, cx in flow.walk(seq) if e.kind == "call" and e.name == name and e.recv is not None and not e.inlined]
        good = []
        for e, cx in calls:
            r = strip(e.recv)
            whole = r.k == "elem" and root_attr(strip(r.a[0])) == "_datasets" and strip(r.a[0]).k == "attr" and len(cx.loops) == 1
            args = list(e.args) + list(e.kw.values())
            same = len(args) == len([p for p in f.params if p != "self"]) and all(handed_on(a, f) for a in args)
            if whole and same and not cx.guards:
                good.append(e)
            elif r.k not in ("elem", "sub", "attr"):
                good.append(e)
        n += 1
        R.ob("forward", name, bool(good), "; ".join(f"{show(e.recv, 3)}.{name}({', '.join(show(a, 3) for a in e.args)})" for e, _ in calls) or "the datasets are not told", f.where)
    need(range(n), "settings of a mix")
    # asking for a length sets batch size and workers of the datasets: they have to be the mix's own
    for m in P.funcs.values():
        if m.cls is c:
            for e, cx in own_events(P, m):
                if e.kind == "call" and e.name == "get_len" and e.recv is not None and e.recv.k != "self":
                    a = list(e.args) + list(e.kw.values())
                    ok = len(a) == 2 and mentions_attr(a[0], "num_workers") and mentions_attr(a[1], "batch_size")
                    R.ob("forward", f"{m.name}: length of a dataset", ok, ", ".join(show(x, 3) for x in a), e.where)
    # the loader tells the dataset how it will be read
    f = P.func(f"{DL}.__init__")
    for name, p in (("set_batch_size", "batch_size"), ("set_num_workers", "num_workers"), ("set_shuffle", "shuffle"), ("set_drop_last", "drop_last")):
        cs = [(e, cx) for e, cx in own_events(P, f) if e.kind == "call" and e.name == name]
        ok = any(e.args and strip(e.args[0]) is mk("param", p) for e, cx in cs)
        R.ob("forward", f"loader: {name}", ok, "; ".join(show(e.args[0], 3) for e, cx in cs if e.args) or "not called", f.where)


def handed_on(a, f):
    a = strip(a)
    ps = {mk("param", p) for p in f.params if p != "self"}
    if a in ps:
        return True
    if a.k == "or" and strip(a.a[0][0]) in ps:
        return True
    if a.k == "ite":
        return all(strip(v) in ps or is_const(strip(v)) for g, v in galts(a)) and any(strip(v) in ps for g, v in galts(a))
    return a.k == "attr" and a.a[0].k == "self" and a.a[1] in {p for p in f.params} | {"_" + p for p in f.params}
