"""C21: every input is processed by exactly one worker."""
from .common import *
from .c14 import is_count, is_rank

DP = "processing.data_processor."


def check(P, R):
    R.rule("bounds", "the share of a worker starts where the one of the worker before it ends, from the first input on")
    R.rule("total", "the shares of all workers of all nodes add up to the number of inputs")
    R.rule("node", "a node takes the shares of its own workers: those from rank * workers up to the next node's first")
    R.rule("bins", "packing by weight puts every input into exactly one of the bins of all workers of all nodes")
    R.rule("lengths", "as many weights as inputs, or the run is refused")
    R.rule("unchanged", "the inputs reach the worker as they were given")
    R.rule("whole", "the shares are cut only for a fast dev run or by what a checkpoint counts as done")
    R.rule("given", "every worker is given its own share and is started once")
    R.rule("announced", "a worker queues every one of its inputs, each to one downloader")
    R.rule("paths", "the list of files of a worker keeps the positions of its inputs")
    R.rule("forwarded", "a downloader hands every input on exactly once, after its files are there, or fails")
    R.rule("ends", "every stage gets one end signal per process that waits for it, after its last input, and ends for no other reason")
    R.rule("processed", "a worker processes every input it gets exactly once")
    R.rule("failed", "waiting for another process ends with an error when that process has failed")
    R.rule("parts", "the parts a reader makes of an input cover it, and are those of no other input")
    R.rule("read-item", "what a reader returns is the input that was asked for")
    R.part(P, sequential, packing, weighted, run_shares, given, announced, downloader, worker, failed, readers)


# ------------------------------------------------------------------ helpers
def is_nodes(x):
    x = peel(strip(x))
    if x.k == "call":
        if fname(x).split(".")[-1] in ("_get_num_nodes", "get_num_nodes"):
            return True
        return bool(fname(x) in ("os.getenv", "os.environ.get", "get") and x.a[1] and strip(x.a[1][0]).k == "const" and eval_str(strip(x.a[1][0])) == "DATA_OPTIMIZER_NUM_NODES")
    return (x.k == "attr" and x.a[1] in ("num_nodes", "_num_nodes")) or (x.k == "param" and x.a[0] == "num_nodes")


def is_world(t):
    """number of workers of all nodes"""
    it = tm.poly_items(peel(strip(t)))
    if len(it) != 1:
        return False
    m, v = next(iter(it.items()))
    return v == 1 and len(m) == 2 and any(is_nodes(y) for y in m) and any(is_count(y) for y in m)


def own_range(lo, hi, at):
    """does lo <= at < hi (poly differences) select rank*workers .. (rank+1)*workers?  lo/hi terms"""
    il, ih = tm.poly_items(peel(strip(lo))), tm.poly_items(peel(strip(hi)))

    def first(it):
        return len(it) == 1 and all(v == 1 and len(m) == 2 and any(is_rank(y) for y in m) and any(is_count(y) for y in m) for m, v in it.items())

    if not first(il):
        return False
    d = tm.poly_items(tm.sub(hi, lo))
    return len(d) == 1 and all(v == 1 and len(m) == 1 and is_count(m[0]) for m, v in d.items())


def comparable(t):
    return mentions(t, is_rank) or mentions(t, is_count) or is_const(strip(t))


def comp_of(t):
    """the list a function returns, as (element, clauses)"""
    t = strip(t)
    while t.k == "call" and t.a[0].k != "meth" and fname(t).split(".")[-1] in ("list", "tuple") and len(t.a[1]) == 1:
        t = strip(t.a[1][0])
    return t.a if t.k == "comp" else None


def conditions(clause):
    return [x for x in clause[1:] if x is not TRUE and x]


def sub_of(t):
    """container and index of t when it is an element or slice"""
    t = strip(t)
    return (strip(t.a[0]), t.a[1]) if t.k == "sub" else (None, None)


# ------------------------------------------------------------------ sequential shares
def sequential(P, R):
    f = P.func(DP + "_map_items_to_workers_sequentially")
    R.unit(f.qual)
    pol = lambda a, b, d: d < 4 and b.module is f.module and b.name not in ("_get_num_nodes", "_get_node_rank")
    seq, ev = evaluate(P, f, policy=pol)
    name = "_map_items_to_workers_sequentially"
    c = comp_of(ev.ret) if ev.ret is not None else None
    if c is None:
        for r in ("bounds", "total", "node"):
            R.ob(r, name, None, "the shares aren't a list built worker by worker")
        return
    kind, elt, clauses = c
    src, sl = sub_of(elt)
    if src is None or sl.k != "slice" or len(clauses) != 1:
        for r in ("bounds", "total", "node"):
            R.ob(r, name, None, f"share is {show(elt, 3)}")
        return
    lo, hi = strip(sl.a[0]), strip(sl.a[1])
    step = sl.a[2] if len(sl.a) > 2 else NONE
    it, conds = clauses[0][0], conditions(clauses[0])
    tl, il = sub_of(lo)
    th, ih = sub_of(hi)
    # zip(b[:-1], b[1:]) or itertools.pairwise
    if tl is not None and th is not None and il.k != "slice" and ih.k != "slice":
        same = strip(tl) is strip(th)
        one = strip(tm.sub(ih, il)) is ONE
        R.ob("bounds", name, same and one and (step is NONE or strip(step) is ONE), f"{show(lo, 2)} : {show(hi, 2)}")
        boundaries(P, R, f, seq, tl, il, name)
        w = il
    elif tl is not None or th is not None:
        off = [x for x in (lo, hi) if x.k == "poly"]
        R.ob("bounds", name, False if off and any(mentions(x, lambda y: y.k == "sub") for x in off) else None, f"{show(lo, 3)} : {show(hi, 3)}")
        return
    else:
        R.ob("bounds", name, None, f"{show(lo, 3)} : {show(hi, 3)}")
        return
    # the workers of this node
    its = strip(it)
    if its.k == "call" and fname(its) == "range":
        a = list(its.a[1])
        a = [ZERO] + a if len(a) == 1 else a
        lowers, uppers = [a[0]], [a[1]]
        for g in conds:
            for l in literals(g):
                b = bound(l, w)
                if b is None:
                    R.ob("node", name, None, f"workers with {show(l, 3)}")
                    return
                (lowers if b[0] == "lo" else uppers).append(b[1])
        lowers = [x for x in lowers if x is not ZERO] or [ZERO]
        tight = [x for x in uppers if not is_world(x)] or uppers
        ok = any(own_range(x, y, w) for x in lowers for y in tight) and len(lowers) == 1 and len(tight) == 1
        if not ok and not all(comparable(x) for x in lowers + tight):
            ok = None
        R.ob("node", name, ok, f"workers {[show(x, 3) for x in lowers]} to {[show(x, 3) for x in tight]}")
    else:
        R.ob("node", name, None, f"workers of {show(it, 3)}")


def bound(l, w):
    """("lo", x): w >= x; ("hi", x): w < x, of a linear literal"""
    l = strip(l)
    if l.k not in ("lt", "le"):
        return None
    p, strict = l.a[0], l.k == "lt"
    ws = [(m, v) for m, v in tm.poly_items(p).items() if len(m) == 1 and strip(m[0]) is strip(w)]
    if len(ws) != 1 or abs(ws[0][1]) != 1:
        return None
    if ws[0][1] == 1:  # w + r < 0  ->  w < -r
        x = tm.sub(w, p)
        return "hi", x if strict else tm.add(x, ONE)
    x = tm.add(p, w)  # r - w <= 0  ->  w >= r
    return "lo", tm.add(x, ONE) if strict else x


def loops_of(seq):
    seen = {}
    for e, c in flow.walk(seq):
        for l in c.loops:
            seen[l.lid] = l
    return seen


def boundaries(P, R, f, seq, table, w, name):
    """the boundaries are the running sums of the counts, from zero on; the counts add up to the number of inputs"""
    t = strip(table)
    while t.k == "call" and (t.a[0].k == "meth" and t.a[0].a[1] in ("tolist", "astype") or t.a[0].k != "meth" and fname(t).split(".")[-1] in ("list", "tuple", "array", "asarray") and t.a[1]):
        t = strip(t.a[0].a[0] if t.a[0].k == "meth" else t.a[1][0])
    if not (t.k == "call" and fname(t).split(".")[-1] in ("cumsum", "accumulate") and t.a[1]):
        R.ob("bounds", name + " (running sums)", None, f"boundaries {show(t, 3)}")
        R.ob("total", name, None, f"boundaries {show(t, 3)}")
        return
    arg = strip(t.a[1][0])
    kw = dict(t.a[2])
    if "initial" in kw:
        ok, counts = kw["initial"] is ZERO, arg
    else:
        ok, counts = False, arg
        ps = None
        if arg.k == "extend":
            ps = (strip(arg.a[0]), strip(arg.a[1]))
        elif arg.k == "binop" and arg.a[0] == "+":
            ps = (strip(arg.a[1]), strip(arg.a[2]))
        elif arg.k == "list" and len(arg.a[0]) == 2 and arg.a[0][1].k == "star":
            ps = (mk("list", (arg.a[0][0],)), strip(arg.a[0][1].a[0]))
        if ps is not None:
            counts = ps[1]
            ok = ps[0].k == "list" and len(ps[0].a[0]) == 1 and ps[0].a[0][0] is ZERO
        elif arg.k not in ("phi", "comp"):
            ok = None
    R.ob("bounds", name + " (running sums)", ok, f"sums of {show(arg, 3)}")
    R.ob("total", name, adds_up(f, seq, counts), f"counts {show(counts, 4)}")


def adds_up(f, seq, counts):
    """True/False/None: do the counts add up to len(items)?"""
    loops = loops_of(seq)
    if counts.k == "phi":
        lp = loops.get(counts.a[0])
        if lp is None or counts.a[1] not in lp.carried:
            return None
        init, nxt = lp.carried[counts.a[1]]
        b = base_counts(strip(init))
        if b is None or b is False:
            return b
        n, world = b
        # every round adds one to one worker and takes one off the rest
        nxt = strip(nxt)
        if nxt.k != "upd" or strip(nxt.a[0]) is not counts:
            return None
        d = strip(tm.sub(nxt.a[2], mk("sub", nxt.a[0], nxt.a[1], 0)))
        if not is_const(d):
            return None
        rest = None
        for k, (i, x) in lp.carried.items():
            i = strip(i)
            if i.k in ("binop", "mod") and "Mod" in repr(i)[:400] or mod_of(i):
                rest = (k, i, strip(x))
        m = mod_of(strip(rest[1])) if rest else None
        if rest is None:
            # rounds counted by the loop: for i in range(n % world)
            it = strip(lp.iter) if lp.iter is not None else None
            if it is not None and it.k == "call" and fname(it) == "range":
                a = list(it.a[1])
                span = a[0] if len(a) == 1 else (tm.sub(a[1], a[0]) if len(a) == 2 else None)
                mm = mod_of(strip(span)) if span is not None else None
                if mm and breaks(lp) == []:
                    return d is ONE and strip(mm[0]) is n and strip(mm[1]) is world
            return None
        ph = mk("phi", counts.a[0], rest[0])
        if strip(m[0]) is not n or strip(m[1]) is not world:
            return False
        if d is not ONE or strip(tm.sub(rest[2], ph)) is not strip(const(-1)):
            return False if is_const(strip(tm.sub(rest[2], ph))) else None
        # the loop ends only when nothing is left, and is long enough for it
        bs = breaks(lp)
        if lp.kind == "while":
            return True if strip(lp.cond) is strip(not_(tm.eq(ph, ZERO))) or bs else None
        for g in bs:
            stops = [bound(l, ph) or l for l in g if mentions(l, lambda x: x is ph)]
            if not stops:
                return False
            for x in stops:
                if isinstance(x, tuple):
                    left = strip(tm.sub(x[1], ONE)) if x[0] == "hi" else None
                elif x.k == "eq":
                    d = tm.sub(x.a[0], x.a[1])
                    left = strip(tm.sub(d, ph))
                    left = left if is_const(left) else strip(tm.add(d, ph))
                else:
                    left = None
                if left is not ZERO:
                    return False if left is not None and is_const(left) else None
        if not bs:
            return None
        it = strip(lp.iter)
        if it.k == "call" and fname(it) == "range":
            a = list(it.a[1])
            if len(a) == 1:
                a = [ZERO, a[0], ONE]
            elif len(a) == 2:
                a.append(ONE)
            if a[2] is ONE:
                span = tm.sub(a[1], a[0])
            elif strip(a[2]) is strip(const(-1)):
                span = tm.sub(a[0], a[1])
            else:
                return None
            span = drop_len(span, init)
            gap = strip(tm.sub(span, world))
            return (gap.a[1] >= -1 if isinstance(gap.a[1], int) else None) if is_const(gap) else None
        return None
    if counts.k == "comp":
        b = base_counts(counts)
        if b is False or b is None:
            e = strip(counts.a[1])
            return None if e.k in ("ite", "poly", "add") else b
        return False  # the remainder is never handed out
    return None


def drop_len(t, of):
    """replace len(list built over range(n)) by n"""
    def f(x):
        if x.k == "call" and fname(x) == "len" and len(x.a[1]) == 1:
            y = strip(x.a[1][0])
            if y.k == "comp" and len(y.a[2]) == 1 and not conditions(y.a[2][0]):
                r = strip(y.a[2][0][0])
                if r.k == "call" and fname(r) == "range" and len(r.a[1]) == 1:
                    return r.a[1][0]
        return None
    r = tm.rebuild(strip(t), f)
    # rebuilding keeps sums as they were written: normalise
    it = tm.poly_items(r)
    out = ZERO
    for m, v in it.items():
        p = const(v)
        for y in m:
            p = tm.mul(p, y)
        out = tm.add(out, p)
    return out


def breaks(lp):
    """guards, within the loop, of its breaks"""
    return flow.exit_guards(lp.body, "break")


def mod_of(t):
    if t.k == "arith" and t.a[0] == "Mod":
        return t.a[1], t.a[2]
    if t.k in ("binop", "bin", "op") and t.a[0] in ("Mod", "%"):
        return t.a[1], t.a[2]
    return None


def floordiv_of(t):
    if t.k in ("arith", "binop", "bin", "op") and t.a[0] in ("FloorDiv", "//"):
        return t.a[1], t.a[2]
    return None


def base_counts(t):
    """(number of inputs, number of workers) of [n // w for _ in range(w)] or [n // w] * w; False when they differ"""
    if t.k == "comp" and len(t.a[2]) == 1:
        fd = floordiv_of(strip(t.a[1]))
        r = strip(t.a[2][0][0])
        if not (r.k == "call" and fname(r) == "range" and len(r.a[1]) == 1):
            return None
        if fd is None:
            # a share taken by another operation than the division whose remainder is handed out afterwards
            return False if mod_of(strip(t.a[1])) else None
        n, w = strip(fd[0]), strip(fd[1])
        if not is_world(w):
            return False
        if strip(r.a[1][0]) is not w:
            return False
        return n, w
    if t.k in ("arith", "binop", "bin", "repeat") and len(t.a) == 3 and t.a[0] in ("Mult", "*"):
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            x = strip(x)
            if x.k == "list" and len(x.a[0]) == 1:
                fd = floordiv_of(strip(x.a[0][0]))
                if fd is None and mod_of(strip(x.a[0][0])):
                    return False
                if fd:
                    return (strip(fd[0]), strip(fd[1])) if strip(y) is strip(fd[1]) and is_world(fd[1]) else False
    return None


# ------------------------------------------------------------------ weighted shares
def packing(P, R):
    f = P.func("utilities.packing._pack_greedily")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, policy=all_mod_policy())
    name = "_pack_greedily"
    ret = strip(ev.ret)
    if ret.k != "tuple" or not ret.a[0]:
        R.ob("bins", name, None, f"returns {show(ret, 2)}")
        return
    contents = strip(ret.a[0][0])
    main = [l for l in loops_of(seq).values() if l.iter is not None and contents.k == "phi" and contents.a[0] == l.lid]
    if not main:
        R.ob("bins", name, None, f"bins {show(contents, 2)}")
        return
    lp = main[0]
    it = strip(lp.iter)
    cut = False
    while it.k == "call" and fname(it).split(".")[-1] in ("sorted", "list", "reversed", "tuple", "enumerate", "iter") and it.a[1]:
        it = strip(it.a[1][0])
    if it.k == "sub":
        cut = True
    zipped = it.k == "call" and fname(it) == "zip"
    if cut:
        R.ob("bins", name, False, f"only {show(it, 3)} are packed")
    # one append per input on every path
    ph = contents

    def adds(e):
        if e.kind == "call" and e.name in ("append", "add", "extend", "insert") and e.recv is not None and mentions(e.recv, lambda x: x is ph):
            return "put"
        if e.kind == "store" and e.base is not None and strip(e.base) is ph:
            return "put"
        return None

    out = count_paths(lp.body, adds)
    states = [dict(s) for k, v in out.items() if k in ("norm", "cont", "brk", "ret") for s in v]
    ok = bool(states) and all(s.get("put") == 1 for s in states) and not out.get("brk") and not out.get("ret")
    R.ob("bins", name + " (each input)", ok, f"inputs put into bins per round: {sorted(s.get('put', 0) for s in states)}", f.where if hasattr(f, "where") else "")
    for e, c in flow.walk(lp.body):
        if adds(e) and e.kind == "call":
            it0 = lp.iter
            v = strip(e.args[0]) if e.args else None
            good = v is not None and v.k == "sub" and strip(v.a[0]).k == "elem" and v.a[1] is ZERO and zipped
            R.ob("bins", name + " (the input)", good if good else None, f"puts {show(v, 3) if v is not None else None}", e.where)
            # into one of the bins
            key = strip(e.recv)
            key = strip(key.a[1]) if key.k == "sub" else None
            R.ob("bins", name + " (bin)", bin_key(lp, seq, key), f"bin {show(key, 3) if key is not None else None}", e.where)
    # lengths
    checked = any(e.kind == "raise" and any(both_len(l) for l in c.guards) for e, c in flow.walk(seq))
    strict = zipped and dict(it.a[2]).get("strict") is TRUE
    run = P.cls(DP + "DataProcessor").find("run")
    rc = run is not None and any(e.kind == "raise" and any(both_len(l) for l in c.guards) for e, c in own_events(P, run))
    R.ob("lengths", name, checked or strict or rc or (None if not zipped else False), "weights and inputs are paired one to one")


def both_len(l):
    l = strip(l)
    l = strip(l.a[0]) if l.k == "not" else l
    return l.k == "eq" and all(strip(x).k == "call" and fname(strip(x)) == "len" for x in l.a[:2])


def bin_key(lp, seq, key):
    """is the bin one of range(num_bins)?"""
    if key is None:
        return None
    k = key
    if k.k == "call" and fname(k).split(".")[-1] in ("min", "max") and k.a[1]:
        src = strip(k.a[1][0])
        if src.k == "phi" and src.a[1] in lp.carried:
            init, nxt = lp.carried[src.a[1]]
            ids = mentions(init, lambda x: x.k == "call" and fname(x) == "range" and len(x.a[1]) == 1 and mentions_param(x, "num_bins"))
            bad = mentions(init, lambda x: x.k == "call" and fname(x) == "range" and not (len(x.a[1]) == 1 and strip(x.a[1][0]).k == "param"))
            nxt = strip(nxt)
            keeps = nxt.k == "upd" and strip(nxt.a[1]) is k
            if bad:
                return False
            return True if ids and keeps else None
        if src.k == "call" and fname(src) == "range":
            return len(src.a[1]) == 1 and strip(src.a[1][0]).k == "param"
    return None


def weighted(P, R):
    f = P.func(DP + "_map_items_to_workers_weighted")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, policy=lambda a, b, d: False)
    name = "_map_items_to_workers_weighted"
    packs = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "_pack_greedily"]
    t = P.func("utilities.packing._pack_greedily")
    for e, c in packs:
        a = passed(e, t) or {}
        R.ob("bins", name + " (number)", is_world(a["num_bins"]) if "num_bins" in a else None, f"bins: {show(a['num_bins'], 3) if 'num_bins' in a else None}", e.where)
        i = strip(a["items"]) if "items" in a else None
        R.ob("bins", name + " (all)", True if i is not None and i.k == "param" else (False if i is not None and i.k in ("sub", "comp") else None), f"inputs: {show(i, 3) if i is not None else None}", e.where)
    if not packs:
        R.ob("bins", name + " (number)", None, "inputs aren't packed by weight")
    c = comp_of(ev.ret)
    if c is None:
        R.ob("node", name, None, f"returns {show(ev.ret, 3)}")
        R.ob("unchanged", name, None, f"returns {show(ev.ret, 3)}")
        return
    kind, elt, clauses = c
    it = strip(clauses[0][0])
    conds = conditions(clauses[0])
    if it.k == "call" and fname(it) == "range" and len(it.a[1]) >= 2:
        R.ob("node", name, own_range(it.a[1][0], it.a[1][1], None) if not conds and len(it.a[1]) == 2 else None, f"workers {show(it, 4)}")
    elif it.k == "call" and fname(it) == "range":
        R.ob("node", name, None if conds or mentions(elt, is_rank) else False, f"workers {show(it, 4)}")
    else:
        R.ob("node", name, None, f"workers {show(it, 4)}")
    # the share
    e = strip(elt)
    arr = [x for x in subterms(e) if x.k == "call" and fname(x).split(".")[-1] in ("permutation", "array", "asarray", "shuffle") and x.a[1]
           and mentions_call(x.a[1][0], "_pack_greedily") and not (strip(x.a[1][0]).k == "call" and fname(strip(x.a[1][0])) == "len")]
    if arr:
        R.ob("unchanged", name, False, f"inputs turned into an array: {show(arr[0], 3)}")
        return
    ok = None
    if e.k == "sub" and e.a[1].k != "slice":
        ok = True
    elif e.k == "sub" and e.a[1].k == "slice":
        ok = False
    elif e.k == "comp" and len(e.a[2]) == 1:
        src, i = sub_of(e.a[1])
        itr = strip(e.a[2][0][0])
        if src is not None and i is not None and itr.k == "call":
            ln = strip(itr.a[1][0]) if itr.a[1] else None
            full = ln is not None and is_len_of(ln, src)
            cond = conditions(e.a[2][0])
            if fname(itr).split(".")[-1] in ("permutation", "range", "randperm"):
                ok = (full and len(itr.a[1]) == 1 and not cond) or (False if cond or len(itr.a[1]) > 1 else (None if not full else False))
    elif e.k == "call" and fname(e).split(".")[-1] == "sample":
        ok = None
    R.ob("unchanged", name, ok, f"share {show(e, 4)}")


# ------------------------------------------------------------------ the run
def run_shares(P, R):
    f = P.cls(DP + "DataProcessor").find("run")
    R.unit(f.qual)
    opq = ("_map_items_to_workers_weighted", "_map_items_to_workers_sequentially", "_create_process_workers")
    seq, ev = evaluate(P, f, policy=lambda a, b, d: b.cls is f.cls and b.name not in opq and d < 3 and b.name.startswith("_") and b.name not in (
        "_load_checkpoint_config", "_save_current_config", "_cleanup_cache", "_cleanup_checkpoints", "_exit_on_error"), opaque=opq)
    maps = {"_map_items_to_workers_weighted", "_map_items_to_workers_sequentially"}
    n = 0
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name == "_create_process_workers":
            n += 1
            a = passed(e, P.cls(DP + "DataProcessor").find("_create_process_workers")) or {}
            t = a.get("workers_user_items", e.args[-1] if e.args else None)
            if t is None:
                R.ob("whole", "run -> workers", None, "shares not found", e.where)
                continue
            for i, (g, ok, what) in enumerate(shares(t, ())):
                R.ob("whole", "run -> workers: " + what.split(":")[0], ok, what, e.where)
        elif e.kind == "call" and e.name in maps:
            t = P.func(DP + e.name)
            a = passed(e, t) or {}
            i = a.get("user_items")
            w = a.get("num_workers")
            cut = i is not None and any(x.k in ("sub", "comp") and (x.k == "comp" or x.a[1].k == "slice") for _, x in galts(strip(i)))
            R.ob("whole", f"run -> {e.name}", None if i is None else not cut, f"inputs {show(i, 2) if i is not None else None}", e.where)
            R.ob("whole", f"run -> {e.name} (workers)", None if w is None else is_count(w), f"workers {show(w, 2) if w is not None else None}", e.where)
    if not n:
        R.ob("whole", "run -> workers", None, "no worker is created here")


def shares(t, g):
    """leaves of the shares given to the workers"""
    t = strip(t)
    if t.k == "ite":
        return shares(t.a[1], g + tuple(literals(t.a[0]))) + shares(t.a[2], g + tuple(literals(not_(t.a[0]))))
    if t.k == "call" and fname(t).split(".")[-1] in ("_map_items_to_workers_weighted", "_map_items_to_workers_sequentially"):
        return [(g, True, fname(t).split(".")[-1] + ": all of it")]
    if t.k == "comp" and len(t.a[2]) == 1:
        src = t.a[2][0][0]
        conds = conditions(t.a[2][0])
        e = strip(t.a[1])
        rest = shares(unenum(src), g)
        if conds:
            return rest + [(g, None, "filtered: " + show(t, 3))]
        if e.k == "sub" and e.a[1].k == "slice":
            sl = e.a[1]
            lo, hi = strip(sl.a[0]), strip(sl.a[1])
            if hi is NONE and mentions_attr(lo, "checkpoint_next_index"):
                i = sub_of(lo)[1]
                ok = i is not None and strip(i).k == "idx" and any(mentions_attr(l, "use_checkpoint") for l in g)
                return rest + [(g, ok, "after a checkpoint: from " + show(lo, 3))]
            if (lo is NONE or lo is ZERO) and mentions_attr(hi, "fast_dev_run") | any(mentions_attr(l, "fast_dev_run") for l in g):
                return rest + [(g, True, "fast dev run: up to " + show(hi, 2))]
            return rest + [(g, False, "cut: " + show(sl, 3))]
        if e.k == "elem":
            return rest
        return rest + [(g, None, "changed: " + show(e, 2))]
    if t.k == "sub" and t.a[1].k == "slice":
        return [(g, False, "cut: " + show(t.a[1], 3))]
    return [(g, None, "share: " + show(t, 2))]


def unenum(t):
    t = strip(t)
    while t.k == "call" and fname(t) == "enumerate" and t.a[1]:
        t = strip(t.a[1][0])
    return t


def given(P, R):
    cls = P.cls(DP + "DataProcessor")
    f = cls.find("_create_process_workers")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, policy=lambda a, b, d: False)
    w = P.cls(DP + "DataWorkerProcess")
    made = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.callee and e.callee.endswith("DataWorkerProcess")]
    if not made:
        R.ob("given", "_create_process_workers", None, "no worker is made here")
        return
    for e, c in made:
        t = target_of(P, e)
        a = (passed(e, t) if t is not None else None) or {}
        it, idx = a.get("items"), a.get("worker_index")
        if it is None or idx is None or not c.loops:
            R.ob("given", "_create_process_workers (share)", None, "shares not found", e.where)
            continue
        it, idx = strip(it), strip(idx)
        ok = None
        if it.k == "elem" and idx.k == "idx":
            ok = strip(unenum(it.a[0])) is strip(unenum(idx.a[0])) and strip(unenum(it.a[0])).k == "param"
        elif it.k == "sub" and it.a[1].k != "slice":
            ok = strip(it.a[1]) is idx
        elif it.k == "sub":
            ok = False
        elif tm.poly_items(idx) and any(len(m) == 1 and m[0].k == "idx" for m in tm.poly_items(idx)):
            ok = False
        R.ob("given", "_create_process_workers (share)", ok, f"worker {show(idx, 3)} gets {show(it, 3)}", e.where)
        lp = c.loops[-1]
        out = count_paths(lp.body, lambda x: "start" if x.kind == "call" and x.name == "start" and x.recv is not None else ("keep" if x.kind == "call" and x.name == "append" and x.args and strip(x.args[0]).k in ("new", "call") and mentions(x.args[0], lambda y: y.k in ("new", "call") and "DataWorkerProcess" in show(y, 2)) else None))
        st = [dict(s) for k, v in out.items() if k in ("norm", "cont", "brk", "ret") for s in v]
        started_elsewhere = any(x.kind == "call" and x.name == "start" and lp not in cc.loops for x, cc in flow.walk(seq))
        ok = all(s.get("start") == 1 for s in st) if not started_elsewhere else None
        R.ob("given", "_create_process_workers (started)", ok and not out.get("brk") if ok is not None else None, f"starts per worker: {sorted(s.get('start', 0) for s in st)}", e.where)


# ------------------------------------------------------------------ a worker's queues
def q_attr(t):
    """attribute a queue was taken from"""
    t = strip(t)
    while t.k in ("sub", "elem"):
        t = strip(t.a[0])
    if t.k == "attr":
        return t.a[1]
    return root_attr(t)


def announced(P, R):
    b = P.cls(DP + "BaseWorker")
    f = b.find("_collect_paths")
    R.unit(f.qual)
    no_dl = lambda x: True if x.k == "attr" and x.a[1] == "no_downloaders" else None
    seq, ev = evaluate(P, f, policy=lambda a, c, d: False)
    n = 0
    for e, c in flow.walk(seq):
        if e.kind != "call" or e.recv is None or not recv_q(e, "ready_to_process_queue"):
            continue
        if e.name == "add_items" or e.name == "put":
            n += 1
            v = strip(e.args[0]) if e.args else None
            if e.name == "add_items":
                x = v
                while x is not None and x.k == "call" and fname(x) in ("list", "tuple") and x.a[1]:
                    x = strip(x.a[1][0])
                ok = all_indices(x)
            else:
                ok = bool(v is not None and v.k == "idx" and is_items(v.a[0]) and c.loops and not inner_guards(c))
                if not ok and v is not None and v.k == "elem":
                    ok = all_indices(strip(v.a[0]))
                if not ok and v is not None and v.k == "poly":
                    ok = False
            R.ob("announced", f"_collect_paths ({e.name})", ok, f"queues {show(v, 3) if v is not None else None}", e.where)
    if not n:
        R.ob("announced", "_collect_paths", False, "no input is queued for processing when there are no downloaders")
    # the file lists: one entry per input, at its position
    loops = [l for l in loops_of(seq).values() if l.iter is not None and is_items(unenum(l.iter))]
    if not loops:
        R.ob("paths", "_collect_paths", None, "no loop over the inputs")
    for lp in loops[:1] if len(loops) == 1 else [l for l in loops if any(e.kind == "call" and e.name == "append" and e.recv is not None and root_attr(strip(e.recv)) == "paths" for e, _ in flow.walk(l.body))]:
        def kind(e):
            if e.kind == "call" and e.name == "append" and e.recv is not None:
                if root_attr(strip(e.recv)) == "paths":
                    return "paths"
            return None
        out = count_paths(lp.body, kind)
        st = [dict(s) for k, v in out.items() if k in ("norm", "cont") for s in v]
        if not any(kind(e) for e, _ in flow.walk(lp.body)):
            continue
        ok = bool(st) and all(s.get("paths") == 1 for s in st) and not out.get("brk") and not out.get("ret")
        R.ob("paths", "_collect_paths (file lists)", ok, f"entries per input: {sorted(s.get('paths', 0) for s in st)}", f"{f.module.name}:{lp.node.lineno}")
        # the inputs keep their number
        for e, c in flow.walk(seq):
            if e.kind == "store" and e.attr == "items" and e.base is not None and strip(e.base).k == "self":
                v = strip(e.value)
                if v.k == "comp":
                    cl = v.a[2]
                    ok2 = len(cl) == 1 and is_items(unenum(cl[0][0])) and not conditions(cl[0])
                    R.ob("paths", "_collect_paths (inputs)", ok2 if len(cl) == 1 else None, f"inputs become {show(v, 2)}", e.where)
                elif v.k == "phi":
                    R.ob("paths", "_collect_paths (inputs)", None, f"inputs become {show(v, 2)}", e.where)
    # without downloaders the inputs stay what they are and nobody is asked to fetch them
    off = lambda t: True if t.k == "attr" and t.a[1] == "no_downloaders" else None
    hits = []
    def idle(st, e):
        if e.kind == "store" and e.attr in ("items", "paths"):
            hits.append((e, f"{e.attr} is replaced"))
        if e.kind == "call" and (e.name == "start" or e.name == "put" and e.recv is not None and mentions_attr(e.recv, "to_download_queues")):
            hits.append((e, f"{e.name} is called"))
        return [st]
    for name in ("_collect_paths", "_start_downloaders"):
        g = b.find(name)
        hits.clear()
        sq, _ = evaluate(P, g, policy=lambda a, c, d: c.cls is not None and c.cls is g.cls and d < 3)
        flow.Typestate(idle, under(off)).run(sq, ["-"])
        R.ob("paths", f"{name} (no downloaders)", not hits, hits[0][1] if hits else "", hits[0][0].where if hits else g.where)
    # downloaders
    f = b.find("_start_downloaders")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, policy=lambda a, c, d: c.cls is not None and c.cls is f.cls and d < 3)
    puts = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "put" and e.recv is not None and e.args]
    ends = [(e, c) for e, c in puts if e.args[0] is NONE]
    jobs = [(e, c) for e, c in puts if e.args[0] is not NONE]
    for e, c in jobs:
        v = strip(e.args[0])
        ok = None
        if v.k == "tuple" and len(v.a[0]) == 2 and c.loops:
            i, p = strip(v.a[0][0]), strip(v.a[0][1])
            src = None
            if i.k == "idx" and p.k == "elem":
                src = strip(unenum(i.a[0]))
                ok = src is strip(unenum(p.a[0])) and src.k == "attr" and src.a[1] == "paths"
                if ok and inner_guards(c):
                    ok = None
                if src.k == "sub" and src.a[1].k == "slice":
                    ok = False
            elif i.k == "poly" or (p.k == "sub" and strip(p.a[1]) is not i):
                ok = False
            R.ob("announced", "_start_downloaders (position)", ok, f"queues {show(v, 3)}", e.where)
            r = strip(e.recv)
            ok = None
            if r.k == "sub" and attr_name(r.a[0]) == "to_download_queues":
                m = mod_of(strip(r.a[1]))
                if m is not None and strip(m[0]) is i:
                    w = strip(m[1])
                    ok = (attr_name(w) == "num_downloaders") or (w.k == "call" and fname(w) == "len") or None
                    if ok is None and (w.k == "poly" or w.k == "attr"):
                        ok = False
                elif is_const(strip(r.a[1])):
                    ok = True if strip(r.a[1]) is ZERO else None
                elif strip(r.a[1]) is i:
                    ok = False
            R.ob("announced", "_start_downloaders (queue)", ok, f"on {show(r, 3)}", e.where)
            lp = c.loops[-1]
            cnt = count_paths(lp.body, lambda x: "put" if x.kind == "call" and x.name == "put" and x.args and x.args[0] is not NONE else None)
            st = [dict(s) for k, vv in cnt.items() if k in ("norm", "cont") for s in vv]
            R.ob("announced", "_start_downloaders (once)", all(s.get("put") == 1 for s in st) and not cnt.get("brk") and not cnt.get("ret"), f"puts per input: {sorted(s.get('put', 0) for s in st)}", e.where)
    if not jobs:
        R.ob("announced", "_start_downloaders (position)", False, "no input is given to a downloader")
    stage_ends(P, R, seq, ends, "_start_downloaders", "to_download_queues", "num_downloaders", jobs)
    # as many downloaders as end signals are counted
    procs = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "start" and c.loops]
    for e, c in procs:
        it = strip(c.loops[-1].iter) if c.loops[-1].iter is not None else None
        ok = None
        if it is not None and it.k == "call" and fname(it) == "range":
            a = it.a[1]
            ok = len(a) == 1 and attr_name(strip(a[0])) == "num_downloaders"
        R.ob("ends", "_start_downloaders (processes)", ok, f"one for each of {show(it, 3) if it is not None else None}", e.where)


def attr_name(t):
    t = strip(t)
    return t.a[1] if t.k == "attr" else (root_attr(t) or "")


def recv_q(e, name):
    return q_attr(e.recv) == name


def is_items(t):
    t = strip(t)
    return t.k == "attr" and t.a[1] in ("items", "paths") or (t.k == "call" and fname(t) == "range" and all_indices(t) is True)


def all_indices(x):
    """range(len(self.items)); False when it is another range"""
    if x is None:
        return None
    x = strip(x)
    if x.k == "call" and fname(x) == "range":
        a = list(x.a[1])
        if len(a) >= 2 and a[0] is ZERO:
            a = a[1:]
        if len(a) != 1:
            return False if len(a) >= 2 and (is_const(a[0]) or len(a) > 2) else None
        n = strip(a[0])
        if n.k == "call" and fname(n) == "len" and attr_name(n.a[1][0]) == "items":
            return True
        if attr_name(n) == "num_items":
            return True
        return False if n.k == "poly" or is_const(n) else None
    return False if x.k == "sub" and x.a[1].k == "slice" else None


def inner_guards(c):
    """conditions between the start of the innermost loop and the event"""
    lp = c.loops[-1]
    return [g for g in c.guards if mentions(g, lambda x: x.k in ("elem", "idx") and lp.iter is not None and strip(unenum(x.a[0])) is strip(unenum(lp.iter)))]


def stage_ends(P, R, seq, ends, fn, queues, count, jobs):
    good = None
    for e, c in ends:
        r = strip(e.recv)
        if not c.loops or (q_attr(r) != queues):
            continue
        lp = c.loops[-1]
        it = strip(unenum(lp.iter)) if lp.iter is not None else None
        ok = None
        if r.k == "elem":
            ok = attr_name(it) == queues if it.k == "attr" or it.k == "mut" or it.k == "append" else (False if it.k == "sub" else None)
        elif r.k == "sub":
            i = strip(r.a[1])
            if i.k in ("idx", "elem") and it is not None and it.k == "call" and fname(it) == "range":
                a = list(it.a[1])
                if len(a) == 2 and a[0] is ZERO:
                    a = a[1:]
                ok = len(a) == 1 and (attr_name(strip(a[0])) == count or (strip(a[0]).k == "call" and fname(strip(a[0])) == "len"))
            elif is_const(i):
                ok = False
        body = count_paths(lp.body, lambda x: "end" if x is e else None)
        st = [dict(s) for k, v in body.items() if k in ("norm", "cont") for s in v]
        if ok and not all(s.get("end") == 1 for s in st):
            ok = False
        R.ob("ends", f"{fn} ({queues})", ok, f"end signals for {show(it, 3) if it is not None else None}", e.where)
        good = True
        # behind every job
        if jobs:
            seen, bad = before(seq, lambda x: x is e, lambda x: any(x is j for j, _ in jobs), init=False)
            late = [x for x in seen if x not in bad]
            R.ob("ends", f"{fn} ({queues}: last)", not late, "nothing is queued behind the end signal", e.where)
    if not good:
        R.ob("ends", f"{fn} ({queues})", False, "no end signal is sent")


def downloader(P, R):
    f = P.func(DP + "_download_data_target")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, policy=lambda a, b, d: d < 3 and b.module is f.module and b.name.startswith("_") and not b.name.startswith("_wait"))
    gets = [e for e, c in flow.walk(seq) if e.kind == "call" and e.name == "get" and e.recv is not None and strip(e.recv).k == "param"]
    loops = [l for l in loops_of(seq).values() if l.kind == "while" and any(e in gets for e, _ in flow.walk(l.body))]
    if not gets or not loops:
        R.ob("forwarded", "_download_data_target", None, "no loop over a queue")
        return
    lp = loops[0]
    inq, outq = strip(gets[0].recv), None
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name == "put" and e.recv is not None and strip(e.recv).k == "param":
            outq = strip(e.recv)
    def cl(e):
        if e.kind == "call" and e.name == "put" and e.recv is not None and strip(e.recv) is outq and e.args:
            v = strip(e.args[0])
            if v is NONE:
                return "end"
            return "index" if v.k == "sub" and v.a[1] is ZERO else "other"
        if e.kind == "call" and e.name == "get" and e in gets:
            return "get"
        return None

    def scen(none):
        def atom(x):
            if x.k == "is" and any(y.k == "call" and y.a[0].k == "meth" and y.a[0].a[1] == "get" for y in (strip(z) for z in x.a if isinstance(z, T))):
                return none
            return None
        return atom
    a = count_paths(lp.body, cl, assume=under(scen(False)))
    b = count_paths(seq, cl, assume=under(scen(True)))
    st = [(k, dict(s)) for k, v in a.items() if k in ("norm", "cont", "brk", "ret") for s in v]
    ok = bool(st) and all(s.get("index", 0) + s.get("other", 0) == 1 and not s.get("end") for k, s in st) and not any(k in ("ret", "brk") for k, _ in st)
    R.ob("forwarded", "_download_data_target (inputs)", ok, f"per input: {sorted({(k, s.get('index', 0)) for k, s in st})}")
    if any(s.get("other") for _, s in st):
        R.ob("forwarded", "_download_data_target (position)", None, "hands on something else than what it got")
    st = [(k, dict(s)) for k, v in b.items() if k in ("norm", "cont", "brk", "ret") for s in v]
    ok = bool(st) and all(s.get("end") == 1 and not s.get("index") for k, s in st)
    R.ob("ends", "_download_data_target", ok, f"on the end signal: {sorted({(k, s.get('end', 0)) for k, s in st})}")
    # after the files are there: nothing is fetched once the position was handed on
    def stp(s, e):
        if cl(e) == "get":
            return [False]
        if cl(e) == "index":
            return [True]
        return [s]
    late = []
    def step(s, e):
        if s and e.kind == "call" and e.name in ("download_file", "copyfile", "copy", "copy2"):
            late.append(e)
        return stp(s, e)
    flow.Typestate(step).run(lp.body, [False])
    R.ob("forwarded", "_download_data_target (after)", not late, "files are fetched before the input is handed on", late[0].where if late else "")
    # each path of the input gets to the cache: fetched from where the input lies, copied, or an error
    fetch = lambda e: e.kind == "call" and e.name in ("download_file", "download_fileobj")
    copy = lambda e: e.kind == "call" and e.name in ("copyfile", "copy", "copy2", "link", "symlink", "move")
    inner = [l for l in loops_of(lp.body).values() if any(fetch(e) or copy(e) for e, _ in flow.walk(l.body))]
    inner = [l for l in inner if not any(k is not l and k in loops_of(l.body).values() for k in inner)]
    for l in inner:
        def where(remote, there):
            def atom(x):
                if x.k in ("in", "notin") and mentions_ext(x.a[1], "_SUPPORTED_PROVIDERS") or x.k == "in" and mentions_attr(x.a[0], "scheme"):
                    return remote
                if x.k == "attr" and x.a[1] == "url":
                    return remote
                if x.k == "is" and NONE in x.a and any(isinstance(y, T) and strip(y).k == "attr" and strip(y).a[1] == "url" for y in x.a):
                    return not remote
                if x.k == "attr" and x.a[1] == "path":
                    return True
                if x.k == "is" and NONE in x.a and any(isinstance(y, T) and strip(y).k == "attr" and strip(y).a[1] == "path" for y in x.a):
                    return False
                if x.k == "call" and fname(x).split(".")[-1] in ("isfile", "is_file"):
                    return there
                if x.k == "call" and x.a[0].k == "meth" and x.a[0].a[1] == "startswith":
                    return False
                if x.k == "eq" and any(isinstance(y, T) and strip(y).k == "attr" and strip(y).a[1] == "scheme" for y in x.a):
                    return remote
                if x.k == "eq" and any(isinstance(y, T) and mentions_param(y, "cache_dir") for y in x.a):
                    return False
                return None
            return atom
        for what, args, hit in (("a remote file is fetched", (True, False), fetch), ("a local file is copied", (False, True), copy)):
            res = count_paths(l.body, lambda e: "hit" if hit(e) else None, assume=under(where(*args)))
            ends = [(k, dict(x)) for k, v in res.items() if k in ("norm", "cont", "brk", "ret") for x in v]
            R.ob("forwarded", f"_download_data_target: {what}", bool(ends) and all(x.get("hit", 0) >= 1 and k in ("norm", "cont") for k, x in ends) if ends else None, f"per file: {sorted({(k, x.get('hit', 0)) for k, x in ends})}", f"{f.module.name}:{l.node.lineno}")
        for e, c in flow.walk(l.body):
            if not (fetch(e) or copy(e)) or len(e.args) < 2:
                continue
            at = where(True, False) if fetch(e) else where(False, True)
            src, dst = strip(spec(e.args[0], at)), strip(spec(e.args[1], at))
            moved = lambda t: [y for y in subterms(t) if y.k == "call" and y.a[0].k == "meth" and y.a[0].a[1] == "replace" and len(y.a[1]) == 2]
            url = [y for y in moved(src) if strip(y.a[1][1]).k == "attr" and strip(y.a[1][1]).a[1] == "url"]
            here = [y for y in moved(dst) if mentions_param(y.a[1][1], "cache_dir")]
            if fetch(e):
                R.ob("forwarded", "_download_data_target: fetched from where the input lies", bool(url) if src.k == "elem" or moved(src) else None, show(src, 5), e.where)
            elif moved(src):
                R.ob("forwarded", "_download_data_target: copied from where the input lies", not url and not any(mentions_param(y.a[1][1], "cache_dir") for y in moved(src)), show(src, 5), e.where)
            R.ob("forwarded", "_download_data_target: put under its place in the cache", bool(here) and not mentions_attr(dst, "url") and not mentions_ext(dst, "os.path.dirname") if dst.k == "elem" or moved(dst) or mentions_ext(dst, "os.path.dirname") else None, show(dst, 5), e.where)
        res = count_paths(l.body, lambda e: "hit" if fetch(e) or copy(e) else None, assume=under(where(False, False)))
        ends = [(k, dict(x)) for k, v in res.items() if k in ("norm", "cont", "brk", "ret") for x in v]
        R.ob("forwarded", "_download_data_target: a file that isn't there is refused", not any(not x.get("hit") for k, x in ends), "it is passed over without an error", f"{f.module.name}:{l.node.lineno}")
    # swallowed failures
    for tr, h in handlers_in(P, f):
        names = handler_names(h)
        if any(isinstance(x, ast.Raise) for x in ast.walk(h)):
            continue
        inner = [x for x in tr.body for y in ast.walk(x) if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("download_file", "copyfile")]
        if inner:
            R.ob("forwarded", "_download_data_target (failure)", False, f"a failed download is swallowed ({names})", f"{f.module.name}:{h.lineno}")
    # an input counts as downloaded only when all of its files exist
    for e, c in flow.walk(lp.body):
        if cl(e) == "index" and any(mentions_ext(g, "os.path.exists") for g in c.guards):
            g = [l for l in c.guards if mentions_ext(l, "os.path.exists")]
            def allof(l):
                l = strip(l)
                return l.k == "call" and fname(l).split(".")[-1] == "all"
            def anyof(l):
                l = strip(l)
                return l.k == "call" and fname(l).split(".")[-1] == "any"
            bad = any(anyof(l) for l in g)
            good = any(allof(l) for l in g)
            if bad or good:
                R.ob("forwarded", "_download_data_target (already there)", good and not bad, f"skipped when {guards_str(c)[:120]}", e.where)


# ------------------------------------------------------------------ the worker's loop
def worker(P, R):
    b = P.cls(DP + "BaseWorker")
    f = b.find("_loop")
    R.unit(f.qual)
    opq = ("_handle_data_chunk_recipe", "_handle_data_transform_recipe", "_handle_data_chunk_recipe_end", "_try_upload")
    seq, ev = evaluate(P, f, policy=lambda a, c, d: c.cls is f.cls and c.name not in opq and c.name.startswith("_") and d < 3)
    loops = [l for l in loops_of(seq).values() if l.kind == "while" and any(e.kind == "call" and e.name in opq for e, _ in flow.walk(l.body))]
    if not loops:
        R.ob("processed", "_loop", None, "no loop over the inputs")
        return
    lp = min(loops, key=lambda l: l.lid)

    def from_queue(x):
        return mentions(x, lambda y: y.k == "call" and y.a[0].k == "meth" and y.a[0].a[1] in ("get", "pop", "_get_ready_index", "get_nowait")) or x.k == "phi"

    def scen(none):
        def atom(x):
            if x.k == "is" and any(from_queue(strip(z)) for z in x.a if isinstance(z, T) and z is not NONE):
                return none
            return None
        return atom

    def cl(e):
        if e.kind == "call" and e.name in ("_handle_data_chunk_recipe", "_handle_data_transform_recipe"):
            return "item"
        if e.kind == "store" and e.attr == "_counter":
            return "count"
        if e.kind == "call" and e.name == "_handle_data_chunk_recipe_end":
            return "end"
        return None

    a = count_paths(lp.body, cl, assume=under(scen(False)))
    st = [(k, dict(s)) for k, v in a.items() if k in ("norm", "cont", "brk", "ret") for s in v]
    R.ob("processed", "_loop (once)", bool(st) and all(s.get("item") == 1 for _, s in st), f"processed per input: {sorted({s.get('item', 0) for _, s in st})}")
    R.ob("processed", "_loop (counted)", bool(st) and all(s.get("count", 0) == 1 for _, s in st), f"counted per input: {sorted({s.get('count', 0) for _, s in st})}")
    z = count_paths(lp.body, cl, assume=under(scen(True)))
    sig = [dict(s) for k, v in z.items() if k in ("norm", "cont", "brk", "ret") for s in v]
    tested = any(truth3(strip(g), scen(True)) is not truth3(strip(g), scen(False)) for e, c in flow.walk(lp.body) for g in c.guards)
    if sig and tested:
        R.ob("processed", "_loop (end signals)", all(not s.get("item") and not s.get("count") for s in sig), "an end signal is no input")
    n = 0
    for e, c in flow.walk(lp.body):
        if cl(e) == "item":
            n += 1
            v = strip(e.args[0]) if e.args else None
            ok = None if v is None else (from_queue(v) and v.k != "poly") or (False if v.k in ("poly", "attr", "const") else None)
            R.ob("processed", f"_loop -> {e.name}", ok, f"processes {show(v, 2) if v is not None else None}", e.where)
        if e.kind == "store" and e.attr == "_counter":
            d = tm.poly_items(strip(e.value))
            cst = [x for m, x in d.items() if len(m) == 0]
            R.ob("processed", "_loop (count)", bool(cst == [1]) if d and len(d) == 2 else None, f"count becomes {show(e.value, 2)}", e.where)
    # when the worker stops: after an end signal of every downloader
    for e, c in flow.walk(lp.body):
        if e.kind not in ("return", "break") or e.kind == "break" and c.loops and c.loops[-1] is not lp and lp in c.loops:
            continue
        if e.kind == "return" and c.inlines:
            continue
        gs = [strip(g) for g in c.guards]
        none = any(truth3(g, scen(False)) is False for g in gs)
        if not none:
            # asked to stop
            stopped = c.trys or any(mentions_attr(g, "stop_queue") for g in gs)
            R.ob("ends", "_loop (stops)", True if stopped else None, f"stops when {guards_str(c)[:150]}", e.where)
            continue
        cmpd = [g for g in gs if mentions_attr(g, "num_downloaders")]
        if not cmpd:
            R.ob("ends", "_loop (stops)", False if single_possible(gs) else None, f"stops when {guards_str(c)[:150]}", e.where)
            continue
        R.ob("ends", "_loop (stops)", counts_ends(f, lp, cmpd[0]), f"stops when {show(cmpd[0], 4)}", e.where)
    # the uploaders and the remover get their end signals
    ends = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "put" and e.args and e.args[0] is NONE and e.recv is not None]
    up = [(e, c) for e, c in ends if q_attr(e.recv) == "to_upload_queues"]
    fl = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "_handle_data_chunk_recipe_end"]
    stage_ends(P, R, seq, up, "_loop", "to_upload_queues", "num_uploaders", fl)
    g = b.find("_start_uploaders")
    if g is not None:
        for e, c in own_events(P, g):
            if e.kind == "call" and e.name == "start" and c.loops:
                it = strip(c.loops[-1].iter) if c.loops[-1].iter is not None else None
                ok = None
                if it is not None and it.k == "call" and fname(it) == "range":
                    ok = len(it.a[1]) == 1 and attr_name(strip(it.a[1][0])) == "num_uploaders"
                R.ob("ends", "_start_uploaders (processes)", ok, f"one for each of {show(it, 3) if it is not None else None}", e.where)
    rm = [(e, c) for e, c in ends if q_attr(e.recv) == "remove_queue"]
    R.ob("ends", "_loop (remove_queue)", len(rm) == 1 if rm else False, "the remover gets its end signal", rm[0][0].where if rm else "")
    # the handlers take the input at the position they are given
    for h in ("_handle_data_chunk_recipe", "_handle_data_transform_recipe"):
        m = b.find(h)
        if m is None:
            continue
        R.unit(m.qual)
        sq, _ = evaluate(P, m, policy=lambda a, c, d: False)
        preps = [(e, c) for e, c in flow.walk(sq) if e.kind == "call" and e.name == "prepare_item"]
        cnt = count_paths(sq, lambda e: "prep" if e.kind == "call" and e.name == "prepare_item" else None)
        st = [dict(s) for k, v in cnt.items() if k in ("norm", "ret") for s in v]
        R.ob("processed", f"{h} (once)", bool(st) and all(s.get("prep") == 1 for s in st) if preps else None, f"prepare_item per input: {sorted(s.get('prep', 0) for s in st)}")
        for e, c in preps:
            v = strip(e.args[0]) if e.args else None
            ok = None
            if v is not None:
                subs = [x for x in subterms(v) if x.k == "sub" and attr_name(x.a[0]) == "items"]
                ps = [p for p in m.params if p != "self"]
                ok = all(strip(x.a[1]).k == "param" and strip(x.a[1]).a[0] == ps[0] for x in subs) if subs else None
                if subs and ok:
                    for gd, leaf in galts(v):
                        rd = leaf.k == "call" and leaf.a[0].k == "meth" and leaf.a[0].a[1] == "read"
                        if not rd and not (leaf.k == "sub" and attr_name(leaf.a[0]) == "items"):
                            ok = None
            R.ob("processed", f"{h} (input)", ok, f"prepares {show(v, 3) if v is not None else None}", e.where)


def single_possible(gs):
    """nothing but the end signal, or a comparison of a counter with a constant, decides"""
    return all(g.k == "is" or g.k in ("eq", "le", "lt") and all(x.k == "phi" or is_const(x) for x in (strip(y) for z in g.a for m in tm.poly_items(z) for y in m)) for g in gs)


def counts_ends(f, lp, g):
    """stops when the number of end signals reaches the number of downloaders, counted one by one from zero"""
    g = strip(g)
    if g.k == "eq":
        a, b = g.a[0], g.a[1]
    elif g.k == "le":
        a, b = g.a[0], ZERO
    else:
        return None
    d = tm.poly_items(tm.sub(a, b))
    nd = [(m, v) for m, v in d.items() if len(m) == 1 and attr_name(m[0]) == "num_downloaders"]
    ph = [(m, v) for m, v in d.items() if len(m) == 1 and strip(m[0]).k == "phi"]
    cst = [v for m, v in d.items() if len(m) == 0]
    if len(nd) != 1 or len(ph) != 1 or nd[0][1] != -ph[0][1] or abs(nd[0][1]) != 1 or len(d) != 2 + len(cst):
        return None
    c = (cst[0] if cst else 0) * ph[0][1]
    name = strip(ph[0][0][0]).a[1]
    starts, steps = set(), set()
    from sa.program import walk_own
    for x in walk_own(lp.func.node if hasattr(lp.func, "node") else f.node):
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
            steps.add(x.value.value if isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) else None)
        elif isinstance(x, (ast.Assign, ast.AnnAssign)) and any(isinstance(y, ast.Name) and y.id == name for z in (x.targets if isinstance(x, ast.Assign) else [x.target]) for y in ast.walk(z)):
            v = x.value
            if isinstance(v, ast.Constant):
                starts.add(v.value)
            elif isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and isinstance(v.left, ast.Name) and v.left.id == name and isinstance(v.right, ast.Constant):
                steps.add(v.right.value)
            else:
                return None
    if len(starts) != 1 or len(steps) != 1 or None in steps:
        return None
    # c: already incremented before the test
    return starts == {0} and steps == {1} and c == 1 or (starts == {1} and steps == {1} and c == 0)


# ------------------------------------------------------------------ failed processes
def failed(P, R):
    b = P.cls(DP + "BaseWorker")
    f = b.find("_loop")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, policy=lambda a, c, d: c.cls is f.cls and c.name in () or (c.cls is f.cls and c.name.startswith("_") and c.name not in (
        "_handle_data_chunk_recipe", "_handle_data_transform_recipe", "_handle_data_chunk_recipe_end") and d < 3))
    n = 0
    for e, c in flow.walk(seq):
        if e.kind != "call" or e.name != "get" or e.recv is None or q_attr(e.recv) != "ready_to_process_queue":
            continue
        if any(strip(g).k == "isinst" and "FakeQueue" in show(g, 3) for g in c.guards):
            continue
        n += 1
        timed = "timeout" in (e.kw or {}) or len(e.args) > 1
        looked = any(mentions_attr(g, "exitcode") or mentions_call(g, "is_alive") for x, cc in flow.walk(seq) if x.kind == "raise" for g in cc.guards if mentions_attr(g, "downloaders"))
        R.ob("failed", "BaseWorker waits for its downloaders", timed and looked, "waits for ever" if not timed else ("a failed downloader isn't looked for" if not looked else "raises when a downloader has failed"), e.where)
    if not n:
        R.ob("failed", "BaseWorker waits for its downloaders", None, "no wait for a queue found")
    f = P.cls(DP + "DataProcessor").find("run")
    seq, ev = evaluate(P, f, policy=lambda a, c, d: c.cls is f.cls and c.name == "_exit_on_error" and d < 2)
    waits = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "get" and e.recv is not None and q_attr(e.recv) == "progress_queue"]
    for e, c in waits:
        timed = "timeout" in (e.kw or {}) or len(e.args) > 1
        def raises(x, cc):
            return x.kind == "raise" and any(mentions(g, lambda y: y.k == "attr" and y.a[1] == "exitcode" or y.k == "call" and y.a[0].k == "meth" and y.a[0].a[1] == "is_alive") for g in cc.guards)
        # looked for without a message having arrived: the raise doesn't depend on what was received
        looked = any(raises(x, cc) and not any(mentions(g, lambda y: y.k == "call" and y.a[0].k == "meth" and y.a[0].a[1] == "values") for g in cc.guards) for x, cc in flow.walk(seq))
        R.ob("failed", "DataProcessor.run waits for its workers", timed and looked, "waits for ever" if not timed else ("a killed worker isn't looked for" if not looked else "raises when a worker has exited"), e.where)
    if not waits:
        R.ob("failed", "DataProcessor.run waits for its workers", None, "no wait for the workers found")


# ------------------------------------------------------------------ readers
def readers(P, R):
    base = P.cls("processing.readers.BaseReader")
    for c in sorted(base.all_subclasses(), key=lambda c: c.qual):
        if c is base:
            continue
        f = c.find("read")
        if f is None or f.cls is base:
            continue
        R.unit(f.qual)
        seq, ev = evaluate(P, f, self_cls=c)
        ps = [p for p in f.params if p != "self"]
        ret = ev.ret
        if ret is None or not ps:
            R.ob("read-item", f"{c.name}.read", None, "nothing returned")
            continue
        dep = mentions(ret, lambda x: x.k == "param" and x.a[0] == ps[0])
        if not dep and not mentions_call(ret, "next") and ret.k not in ("const",):
            dep = None
        R.ob("read-item", f"{c.name}.read", dep, f"returns {show(ret, 3)}", f"{f.module.name}:{f.node.lineno}")
    c = P.cls("processing.readers.ParquetReader")
    f = c.find("remap_items")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, policy=lambda a, b, d: b.cls is c and b.name not in ("_get_num_rows",) and d < 3)
    wr = [(e, cc) for e, cc in flow.walk(seq) if e.kind == "call" and e.name == "write_table"]
    for e, cc in wr:
        tab = strip(e.args[0]) if e.args else None
        leaves = [v for _, v in galts(tab)] if tab is not None else []
        sls = [strip(x).a[1] for x in leaves if strip(x).k == "sub" and strip(x).a[1].k == "slice"]
        rng = None
        for l in cc.loops[::-1]:
            for x in subterms(l.iter) if l.iter is not None else []:
                if x.k == "call" and fname(x) == "range" and len(x.a[1]) == 3:
                    rng = x
        ok = None
        if sls and rng is not None:
            lo, hi = strip(sls[0].a[0]), strip(sls[0].a[1])
            step = rng.a[1][2]
            nrows = rng.a[1][1]
            end = tm.add(lo, step)
            mins = hi.k == "call" and fname(hi) == "min" and {strip(x) for x in hi.a[1]} == {strip(end), strip(nrows)}
            ok = rng.a[1][0] is ZERO and lo.k in ("elem",) and (mins or strip(hi) is strip(end))
            if not ok and lo.k not in ("elem", "poly"):
                ok = None
        R.ob("parts", "ParquetReader.remap_items (rows)", ok, f"rows {show(sls[0], 4) if sls else None} of {show(rng, 3) if rng is not None else None}", e.where)
        path = e.args[1] if len(e.args) > 1 else None
        outer = [l for l in cc.loops if l.iter is not None and strip(unenum(l.iter)).k == "param"]
        if path is None or not outer:
            R.ob("parts", "ParquetReader.remap_items (name)", None, "no path of the part", e.where)
            continue
        src = lambda x: x.k == "elem" and strip(unenum(x.a[0])) is strip(unenum(outer[0].iter))
        # the whole path of the file is in the name, not only its last component
        ok = whole_path(path, src)
        R.ob("parts", "ParquetReader.remap_items (name)", ok, f"named {show(path, 4)}", e.where)
        lo_in = any(strip(p) in [strip(x) for s in sls for x in (s.a[0],)] for p in subterms(path))
        R.ob("parts", "ParquetReader.remap_items (name of the rows)", lo_in if sls else None, f"named {show(path, 3)}", e.where)
    # one entry per part, whether it was there or not
    inner = [l for l in loops_of(seq).values() if any(e in [x for x, _ in wr] for e, _ in flow.walk(l.body)) and l.iter is not None and mentions(l.iter, lambda x: x.k == "call" and fname(x) == "range")]
    for l in inner:
        cnt = count_paths(l.body, lambda e: "item" if e.kind == "call" and e.name == "append" and e.recv is not None and "new_items" in show(strip(e.recv), 2) or e.kind == "call" and e.name == "append" and e.args and wr and strip(e.args[0]) is strip(wr[0][0].args[1]) else None)
        st = [dict(s) for k, v in cnt.items() if k in ("norm", "cont") for s in v]
        R.ob("parts", "ParquetReader.remap_items (every part)", all(s.get("item") == 1 for s in st) and not cnt.get("brk") and not cnt.get("ret") if any(s.get("item") for s in st) else None, f"entries per part: {sorted(s.get('item', 0) for s in st)}")


def whole_path(t, src):
    """does t carry the full path? basename/stem/splitext lose its directory"""
    t = strip(t)
    if src(t):
        return True
    if t.k == "call":
        n = fname(t).split(".")[-1]
        if n in ("basename", "splitext", "len", "getsize", "exists", "isfile", "stat", "count_rows", "_get_num_rows", "range", "min", "max") or (t.a[0].k == "meth" and t.a[0].a[1] in ("stat", "_get_num_rows")):
            return False
    if t.k == "attr" and t.a[1] in ("name", "stem", "suffix", "st_size", "st_mtime", "st_mtime_ns"):
        return False
    if t.k == "elem":
        return False
    return any(whole_path(x, src) for x in tm.children(t) if isinstance(x, T))
