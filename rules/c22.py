"""C22: parts of a dataset are disjoint, stay within it, and keep chunks with their own regions."""
from .common import *
from .c21 import comp_of, conditions, floordiv_of, loops_of

U = "utilities."
FILES, ROI = "subsampled_files", "region_of_interest"


def check(P, R):
    R.rule("paired", "the list of chunks a dataset reads and the list of its regions are in the same order wherever they are set or returned")
    R.rule("together", "shuffling two lists applies one permutation of all positions to both")
    R.rule("cut", "taking a number of samples off the front divides the chunks and their regions without overlap or gap")
    R.rule("inputs", "the lists that are cut are not changed themselves")
    R.rule("disjoint", "every part is cut from what the parts before it left")
    R.rule("fractions", "the fractions are not negative, do not exceed the whole, and are rounded down")
    R.rule("copies", "every part is a dataset of its own, and forgets what was set up for the whole, which stays as it was")
    R.rule("selected", "subsampling takes whole copies of the dataset for each full unit and a cut for the rest")
    R.rule("whole-region", "the region of a chunk that wasn't cut is the whole chunk")
    R.rule("lookup", "a selected chunk stands at every position of its own name, and an unknown name is an error")
    R.part(P, paired, together, cut, split, selected, whole_region, lookup)


# ------------------------------------------------------------------ pairing
def nostar(t):
    return strip(t)


def called(t, name):
    t = nostar(t)
    return t.k == "call" and t.a[0].k != "meth" and fname(t).split(".")[-1] == name


def indexed(t, name):
    """(call, number) when t is one of the results of a call to `name`"""
    t = nostar(t)
    if t.k == "sub" and called(t.a[0], name) and is_const(t.a[1]):
        return t.a[0], t.a[1].a[1]
    return None


def arg(P, t, i, pname):
    t = nostar(t)
    if len(t.a[1]) > i:
        return t.a[1][i]
    for k, v in t.a[2]:
        if k == pname:
            return v
    return None


def unlist(t):
    t = nostar(t)
    while t.k == "call" and t.a[0].k != "meth" and fname(t) in ("list", "tuple") and len(t.a[1]) == 1:
        t = nostar(t.a[1][0])
    return t


def aligned(P, a, b, carried, seen=(), why=None):
    """are the chunks (or their names) a and the regions b in the same order?  True / False / None"""
    why = why if why is not None else []
    a, b = unlist(a), unlist(b)
    if (a, b) in seen:
        return True
    if len(seen) > 60:
        return None
    seen = seen + ((a, b),)
    for x in (a, b):
        if x.k == "ite":
            rs = []
            for want in (True, False):
                atom = lambda y, c=x.a[0], w=want: w if y is c else (not w) if y is not_(c) else None
                rs.append(aligned(P, spec(a, atom), spec(b, atom), carried, seen, why))
            return both(rs)
    if a.k in ("list", "tuple") and b.k in ("list", "tuple") and not a.a[0] and not b.a[0]:
        return True
    if a.k == "extend" and b.k == "extend":
        return both([aligned(P, a.a[0], b.a[0], carried, seen, why), aligned(P, a.a[1], b.a[1], carried, seen, why)])
    if a.k == "phi" and b.k == "phi" and a.a[0] == b.a[0]:
        ca, cb = carried.get(a.a), carried.get(b.a)
        if ca is None or cb is None:
            return None
        return both([aligned(P, ca[0], cb[0], carried, seen, why), aligned(P, ca[1], cb[1], carried, seen, why)])
    if a.k == "attr" and b.k == "attr" and a.a[1].lstrip("_") == FILES and b.a[1].lstrip("_") == ROI:
        return a.a[0] is b.a[0] or None
    if a.k == "param" and b.k == "param" and a.a[0] == FILES and b.a[0] == ROI:
        return True
    if a.k == "sub" and b.k == "sub" and called(a.a[0], "subsample_streaming_dataset") and called(b.a[0], "subsample_streaming_dataset"):
        ok = a.a[0] is b.a[0] and a.a[1] is ZERO and b.a[1] is ONE
        if not ok:
            why.append("the results of a selection")
        return ok
    for name, pairs, ps in (("shuffle_lists_together", {(0, 1)}, ("list1", "list2")), ("subsample_filenames_and_roi", {(0, 1), (2, 3)}, ("chunks", "roi_list"))):
        ia, ib = indexed(a, name), indexed(b, name)
        if ia is None and ib is None:
            continue
        if ia is None or ib is None:
            o = a if ia is None else b
            if o.k == "comp" and ia is None:
                break  # the names of what was reordered
            why.append(f"{show(o, 3)} isn't reordered by {name}")
            return False if o.k in ("phi", "attr", "param") or called(o, "generate_roi") or called(o, "load_subsampled_chunks") or o.k == "sub" else None
        if ia[0] is not ib[0]:
            why.append(f"different calls to {name}")
            return False
        x, y = arg(P, ia[0], 0, ps[0]), arg(P, ia[0], 1, ps[1])
        if (ia[1], ib[1]) in pairs:
            return aligned(P, x, y, carried, seen, why) if x is not None and y is not None else None
        why.append(f"results {ia[1]} and {ib[1]} of {name}")
        return aligned(P, y, x, carried, seen, why) if (ib[1], ia[1]) in pairs else False
    if called(a, "load_subsampled_chunks"):
        n = arg(P, a, 0, FILES)
        return aligned(P, n, b, carried, seen, why) if n is not None else None
    if called(b, "generate_roi"):
        x = arg(P, b, 0, "chunks")
        if a.k == "comp" and names_of(a) is not None:
            a = unlist(names_of(a))
        if x is not None and unlist(x) is a:
            return True
        why.append(f"regions of {show(x, 4)} for {show(a, 4)}")
        return False if x is not None and (a.k == "comp" or unlist(x).k == "comp" or subset(a, x)) else None
    if a.k == "comp":
        src = names_of(a)
        if src is not None:
            return aligned(P, src, b, carried, seen, why)
        if len(a.a[2]) == 1 and a.a[2][0][1] is not TRUE and not (b.k == "comp"):
            why.append(f"the chunks of {show(a.a[2][0][0], 3)} with {show(a.a[2][0][1], 3)}, in their own order")
            return False
        return None
    if a.k == "sub" and b.k == "sub" and a.a[1].k == "slice" and b.a[1].k == "slice":
        if nostar(a.a[1]) is nostar(b.a[1]):
            return aligned(P, a.a[0], b.a[0], carried, seen, why)
        return None
    return None


def subset(a, x):
    return mentions(unlist(x), lambda y: y is a) or mentions(a, lambda y: y is unlist(x))


def both(rs):
    return False if False in rs else None if None in rs else True


def names_of(c):
    """the list whose elements' file names the comprehension gives, in order"""
    kind, elt, clauses = c.a
    if kind == "list" and len(clauses) == 1 and clauses[0][1] in (TRUE, None) or kind == "list" and len(clauses) == 1 and clauses[0][1] is TRUE:
        src, elt = nostar(clauses[0][0]), nostar(elt)
        if elt.k == "sub" and eval_str(elt.a[1]) == "filename" if elt.k == "sub" and elt.a[1].k == "const" else False:
            e = nostar(elt.a[0])
            if e.k == "elem" and nostar(e.a[0]) is src:
                return src
    return None


def carried_of(seq):
    out = {}
    for lid, lp in loops_of(seq).items():
        for name, (i, n) in lp.carried.items():
            out[(lid, name)] = (i, n)
    return out


def shallow(P, f):
    """evaluate f with helpers of its own module inlined, apart from the operations the rules know"""
    known = {"shuffle_lists_together", "subsample_filenames_and_roi", "generate_roi", "load_subsampled_chunks", "load_index_file", "deepcopy_dataset",
             "subsample_streaming_dataset", "reset"}
    return evaluate(P, f, policy=lambda a, b, d: d < 3 and b.module is f.module and b.name not in known and (b.cls is None or f.cls is not None and b.cls in f.cls.mro()))


def paired(P, R):
    n = 0
    for q, f in sorted(P.funcs.items()):
        if not any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in (FILES, ROI) for x in P.nodes(f)):
            continue
        try:
            seq, ev = shallow(P, f)
        except AnalysisBroken:
            continue
        carried = carried_of(seq)
        stores = {}
        for e, c in flow.walk(seq):
            if e.kind == "store" and e.attr in (FILES, ROI):
                stores.setdefault(nostar(e.base), {}).setdefault(e.attr, []).append(e)
        for base, d in stores.items():
            n += 1
            R.unit(f.qual)
            what = f"{f.qual.split('litdata.')[-1]} {show(base, 2)}"
            if len(d) == 1:
                k = next(iter(d))
                if all(nostar(e.value).k == "param" for e in d[k]):
                    continue  # handed on by a class that needs only one of them
                other = [e for b2, d2 in stores.items() if b2 is not base for e in d2.get(ROI if k == FILES else FILES, [])]
                R.ob("paired", what, False if base.k != "self" or other else None, f"only {k} is set", d[k][0].where)
                continue
            if len(d[FILES]) != len(d[ROI]):
                R.ob("paired", what, None, "set a different number of times", d[FILES][0].where)
                continue
            for x, y in zip(d[FILES], d[ROI]):
                a, b = nostar(x.value), nostar(y.value)
                # [] before the real value is known
                if (a.k == "list" and not a.a[0]) or (b.k == "list" and not b.a[0]) or (a.k == "param" and b.k == "param"):
                    R.ob("paired", what, True, "as given", x.where)
                    continue
                why = []
                ok = aligned(P, a, b, carried, why=why)
                R.ob("paired", what, ok, "; ".join(why[:2]) or f"{show(a, 3)} with {show(b, 3)}", y.where)
    R.ob("paired", "places that set a selection", True if n else None, f"{n} places")


# ------------------------------------------------------------------ shuffle
def together(P, R):
    f = P.func(U + "subsample.shuffle_lists_together")
    R.unit(f.qual)
    seq, ev = shallow(P, f)
    l1, l2 = f.params[0], f.params[1]
    r = nostar(ev.ret)
    if r.k != "tuple" or len(r.a[0]) != 2:
        R.ob("together", f.name, None, f"returns {show(r, 3)}")
        return
    order = []
    for x, want in zip(r.a[0], (l1, l2)):
        c = comp_of(x)
        if c is None or len(c[2]) != 1 or conditions(c[2][0]):
            R.ob("together", f"{f.name} {want}", None if c is None else False, f"{show(x, 4)}")
            return
        elt = nostar(c[1])
        ok = elt.k == "sub" and nostar(elt.a[0]).k == "param"
        if elt.k == "elem" and nostar(elt.a[0]).k == "param":
            R.ob("together", f"{f.name} {want}", False if order or len(r.a[0]) == 2 else None, f"{show(x, 4)} keeps its order")
            return
        if not ok:
            R.ob("together", f"{f.name} {want}", None, show(elt, 4))
            return
        R.ob("together", f"{f.name} {want}", nostar(elt.a[0]).a[0] == want and nostar(elt.a[1]).k == "elem" and nostar(nostar(elt.a[1]).a[0]) is nostar(c[2][0][0]),
             show(x, 4))
        order.append(nostar(c[2][0][0]))
    # one draw: the same value, not two calls
    raw = [nz for nz in ev.ret.a[0]]
    its = [unlist_raw(x).a[2][0][0] for x in raw if unlist_raw(x).k == "comp"]
    R.ob("together", f"{f.name} one order", its[0] is its[1] if len(its) == 2 else None, f"{show(order[0], 4)}")
    # the order is a permutation of all positions
    perm = [x for x in subterms(order[0]) if x.k == "call" and x.a[0].k == "meth" and fname(x).split(".")[-1] in ("permutation", "choice", "randint", "integers", "sample")]
    if len(perm) != 1:
        R.ob("together", f"{f.name} permutation", None, show(order[0], 4))
        return
    kind = fname(perm[0]).split(".")[-1]
    a = nostar(perm[0].a[1][0]) if perm[0].a[1] else None
    full = a is not None and covers(a, (l1, l2))
    R.ob("together", f"{f.name} permutation", kind == "permutation" and full if a is not None and (kind != "permutation" or full is not None) else None,
         f"{kind} of {show(a, 3) if a is not None else '?'}")
    # nothing drops positions afterwards
    cut = [x for x in subterms(order[0]) if x.k == "sub" and x.a[1].k == "slice" and mentions(x.a[0], lambda y: y is perm[0])]
    R.ob("together", f"{f.name} all positions", not cut, f"{[show(x, 3) for x in cut]}")


def unlist_raw(t):
    while t.k == "call" and t.a[0].k != "meth" and fname(t) in ("list", "tuple") and len(t.a[1]) == 1:
        t = t.a[1][0]
    return t


def covers(a, names):
    """is a `len(l)` or the range of it (for one of the lists)?"""
    a = unlist(a)
    if a.k == "call" and fname(a).split(".")[-1] in ("range", "arange"):
        args = list(a.a[1])
        if len(args) == 1:
            return covers(args[0], names)
        if len(args) == 2 and args[0] is ZERO:
            return covers(args[1], names)
        return False if len(args) == 2 and is_const(args[0]) else None
    if a.k == "call" and fname(a) == "len" and len(a.a[1]) == 1:
        x = nostar(a.a[1][0])
        return True if x.k == "param" and x.a[0] in names else None
    if a.k == "poly":
        return False if mentions(a, lambda y: y.k == "call" and fname(y) == "len") else None
    return None


# ------------------------------------------------------------------ cut
def cut(P, R):
    f = P.func(U + "subsample.subsample_filenames_and_roi")
    R.unit(f.qual)
    seq, ev = shallow(P, f)
    chunks, rois, count = (mk("param", p) for p in f.params[:3])
    name = f.name
    nothing = lambda x: True if x.k == "eq" and count in x.a and ZERO in x.a else None
    something = lambda x: False if x.k == "eq" and count in x.a and ZERO in x.a else (True if x.k in ("lt", "le") and nostar(x.a[0]) is tm.neg(count) else True if x is count else None)
    # what is changed in place
    sets = []
    for e, c in flow.walk(seq):
        if e.kind == "setitem":
            b = nostar(e.base)
            R.ob("inputs", f"{name} {show(b, 2)}", False if b in (chunks, rois) else True, "changed in place", e.where)
            sets.append((e, c))
        if e.kind == "call" and e.recv is not None and nostar(e.recv) in (chunks, rois) and e.name in ("pop", "append", "insert", "remove", "clear", "extend", "sort", "reverse"):
            R.ob("inputs", f"{name} {show(e.recv, 2)}", False, f"{e.name}", e.where)
    # nothing asked for
    zero = [nostar(r) for e, c in flow.walk(seq) if e.kind == "return" and truths(c, nothing) is not False and truths(c, nothing) is not None for r in [e.value]]
    for r in zero:
        if r.k == "tuple" and len(r.a[0]) == 4 and all(x.k == "list" for x in map(nostar, r.a[0][:2])):
            x = [nostar(y) for y in r.a[0]]
            R.ob("cut", f"{name} nothing", not x[0].a[0] and not x[1].a[0] and unlist(x[2]) is chunks and unlist(x[3]) is rois, f"{show(r, 4)}")
    rest = [(e, c) for e, c in flow.walk(seq) if e.kind == "return" and truths(c, something) is not False]
    rest = [(e, c) for e, c in rest if not (nostar(e.value).k == "tuple" and nostar(e.value) in zero)]
    if len(rest) != 1 or nostar(rest[0][0].value).k != "tuple" or len(nostar(rest[0][0].value).a[0]) != 4:
        R.ob("cut", name, None, f"{len(rest)} results")
        return
    n, r, lc, lr = [unlist(x) for x in nostar(rest[0][0].value).a[0]]
    # names of chunks[:A]
    ch = names_of(n) if n.k == "comp" else None
    A, A2 = (prefix(ch, chunks) if ch is not None else None), prefix(r, rois)
    B, B2 = suffix_of(lc, chunks), suffix_of(lr, rois)
    if ch is None and n.k == "comp":
        elt = nostar(n.a[1])
        R.ob("cut", f"{name} names", None, show(elt, 3))
    if A is None or A2 is None or B is None or B2 is None:
        R.ob("cut", name, None, f"{show(n, 3)}, {show(r, 3)}, {show(lc, 3)}, {show(lr, 3)}")
        return
    R.ob("cut", f"{name} taken", A is A2, f"chunks up to {show(A, 3)}, regions up to {show(A2, 3)}")
    R.ob("cut", f"{name} left", B is B2, f"chunks from {show(B, 3)}, regions from {show(B2, 3)}")
    # the last chunk needed: the first with which the running total reaches the count
    m = nostar(tm.sub(A, ONE))
    total, reach = first_reaching(m, rois, count)
    R.ob("cut", f"{name} enough", reach, f"last chunk taken {show(m, 5)}")
    if total is None:
        return
    at = mk("sub", total, m, 0)
    exact = nostar(tm.eq(count, at))

    def is_exact(x):
        return True if x is exact or x.k == "eq" and set(x.a) == {count, at} else None
    yes = lambda x: is_exact(x)
    no = lambda x: (False if is_exact(x) else None)
    be, bn = spec(B, yes), spec(B, no)
    known = not any(y.k == "ite" for z in (be, bn) for y in subterms(z))
    R.ob("cut", f"{name} next chunk", (be is A and nostar(tm.sub(A, bn)) is ONE) if known else None, f"left from {show(be, 3)} when the chunk is used up, from {show(bn, 3)} otherwise")
    # the region of the last chunk taken, and of the same chunk in what is left
    last = first = None
    for e, c in sets:
        b, i = nostar(e.base), nostar(e.idx)
        if b is r:
            last = (e, c)
            R.ob("cut", f"{name} last position", i is const(-1) or i is m, show(i, 3), e.where)
        elif b is lr:
            first = (e, c)
            R.ob("cut", f"{name} first position", i is ZERO, show(i, 3), e.where)
    canon = lambda t: spec(normal(spec(t, no), rois, A, bn), no)
    here = mk("sub", rois, m, 0)
    lo, hi = mk("sub", here, ZERO, 0), mk("sub", here, ONE, 0)
    end = nostar(tm.add(tm.sub(hi, at), count))
    if last is None:
        R.ob("cut", f"{name} end of the last", False if not mentions(r, lambda y: y.k in ("mut", "extend", "append")) else None, "the last region taken is not shortened")
    else:
        v = canon(last[0].value)
        if v.k != "tuple" or len(v.a[0]) != 2:
            R.ob("cut", f"{name} end of the last", None, show(v, 4), last[0].where)
        else:
            g = truths(last[1], no)
            R.ob("cut", f"{name} start of the last", v.a[0][0] is lo or (None if odd(v.a[0][0], here, at, count) else False), show(v.a[0][0], 4), last[0].where)
            R.ob("cut", f"{name} end of the last", (v.a[0][1] is end and g is not False) or (None if odd(v.a[0][1], here, at, count) else False), show(v.a[0][1], 5), last[0].where)
    if first is None:
        R.ob("cut", f"{name} start of the rest", False if not mentions(lr, lambda y: y.k in ("mut", "extend", "append")) else None, "the first region left keeps its start")
    else:
        v = canon(first[0].value)
        ge, gn = truths(first[1], yes), truths(first[1], no)
        R.ob("cut", f"{name} only the shared chunk", ge is False and gn is not False if ge is not None else False, guards_str(first[1])[-120:], first[0].where)
        if v.k != "tuple" or len(v.a[0]) != 2:
            R.ob("cut", f"{name} start of the rest", None, show(v, 4), first[0].where)
        else:
            R.ob("cut", f"{name} start of the rest", v.a[0][0] is end or (None if odd(v.a[0][0], here, at, count) else False), show(v.a[0][0], 5), first[0].where)
            R.ob("cut", f"{name} end of the rest", v.a[0][1] is hi or (None if odd(v.a[0][1], here, at, count) else False), show(v.a[0][1], 4), first[0].where)


def odd(t, here, at, count):
    """a form the rule can't judge: it is made of something else than the region, the running total and the count"""
    known = (at, count, mk("sub", here, ZERO, 0), mk("sub", here, ONE, 0))
    if totals_only(nostar(t), at.a[0], count):
        return False  # a position in a chunk can't be told from numbers of samples alone: regions start anywhere
    return any(len(k) > 1 or k[0] not in known for k in tm.poly_items(nostar(t)) if k)


def totals_only(t, total, count):
    t = nostar(t)
    if t is count or is_const(t) or (t.k == "sub" and nostar(t.a[0]) is total):
        return True
    if t.k == "ite":
        return all(totals_only(x, total, count) for _, x in galts(t))
    if t.k == "poly":
        return all(len(k) <= 1 and all(totals_only(x, total, count) for x in k) for k in tm.poly_items(t))
    return False


def contains_cumsum(y):
    return mentions(y, lambda z: z.k == "call" and fname(z).split(".")[-1] == "cumsum")


def truths(c, atom):
    """truth of all guards of an event in a scenario"""
    vs = [truth3(g, atom) for g in c.guards]
    return False if False in vs else True if True in vs else None


def prefix(t, of):
    t = unlist(t)
    if t.k == "sub" and nostar(t.a[0]) is of and t.a[1].k == "slice":
        lo, hi = t.a[1].a[0], t.a[1].a[1]
        if lo in (NONE, ZERO, None) or lo is NONE:
            return nostar(hi)
    return None


def suffix_of(t, of):
    t = unlist(t)
    if t.k == "sub" and nostar(t.a[0]) is of and t.a[1].k == "slice":
        lo, hi = t.a[1].a[0], t.a[1].a[1]
        if hi is NONE or hi is None:
            return nostar(lo)
    return None


def normal(t, rois, A, B):
    """an element of a slice as the element of the list"""
    def f(x):
        if x.k == "sub" and x.a[0].k == "sub" and x.a[0].a[1].k == "slice" and nostar(x.a[0].a[0]) is rois and x.a[1].k == "const":
            lo, hi = x.a[0].a[1].a[0], x.a[0].a[1].a[1]
            i = x.a[1].a[1]
            if i == -1 and hi is not NONE:
                return mk("sub", rois, nostar(tm.sub(hi, ONE)), 0)
            if i == 0 and hi is NONE:
                # in the branch where the chunk is shared
                return mk("sub", rois, B, 0)
        return None
    return nostar(tm.rebuild(nostar(t), f))


def first_reaching(m, rois, count):
    """(running totals, is m the first position whose total reaches the count?)"""
    while m.k == "call" and m.a[0].k != "meth" and fname(m) == "int" and len(m.a[1]) == 1:
        m = nostar(m.a[1][0])
    fn = fname(m).split(".")[-1] if m.k == "call" else ""
    if fn == "argmax" and m.a[1]:
        c = nostar(m.a[1][0])
        if c.k in ("le", "lt"):
            it = tm.poly_items(c.a[0])
            tot = [y for k, v in it.items() if len(k) == 1 and v == -1 for y in k]
            if len(tot) == 1 and running(tot[0], rois) is not None:
                ok = running(tot[0], rois) and nostar(tm.add(c.a[0], tot[0])) is count and c.k == "le"
                return tot[0], ok
            return None, False if any(running(y, rois) is not None for k in it for y in k) else None
        return None, None
    if fn == "searchsorted":
        a = [nostar(x) for x in m.a[1]]
        kw = dict(m.a[2])
        if len(a) >= 2 and running(a[0], rois) is not None:
            side = kw.get("side", a[2] if len(a) > 2 else None)
            return a[0], running(a[0], rois) and a[1] is count and (side is None or eval_str(side) == "left")
    return None, None


def running(t, rois):
    """are these the running totals of the region sizes?"""
    t = nostar(t)
    if t.k == "call" and fname(t).split(".")[-1] in ("cumsum", "accumulate") and t.a[1]:
        c = comp_of(t.a[1][0]) or (nostar(t.a[1][0]).a if nostar(t.a[1][0]).k == "comp" else None)
        if c is None or len(c[2]) != 1 or nostar(c[2][0][0]) is not rois:
            return None
        return size_of(c[1], rois) and not conditions(c[2][0])
    if t.k == "call" and fname(t) in ("list", "numpy.array") and t.a[1]:
        return running(t.a[1][0], rois)
    return None


def size_of(elt, src):
    e = mk("elem", src)
    want = nostar(tm.sub(mk("sub", e, ONE, 0), mk("sub", e, ZERO, 0)))
    got = nostar(elt)
    return got is want


# ------------------------------------------------------------------ splits
def split(P, R):
    f = P.func(U + "train_test_split.train_test_split")
    R.unit(f.qual)
    seq, ev = shallow(P, f)
    name = f.name
    carried = carried_of(seq)
    dsp, frp = f.params[0], f.params[1]
    calls = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "subsample_filenames_and_roi"]
    if len(calls) != 1:
        R.ob("disjoint", name, None, f"{len(calls)} cuts")
        return
    e, c = calls[0]
    a = passed(e, P.func(U + "subsample.subsample_filenames_and_roi"))
    if a is None or len(a) != 3 or not c.loops:
        R.ob("disjoint", name, None, "the arguments of the cut")
        return
    ch, ro, n = (a[p] for p in P.func(U + "subsample.subsample_filenames_and_roi").params)
    for what, t, k in (("chunks", ch, 2), ("regions", ro, 3)):
        t = nostar(t)
        if t.k != "phi":
            R.ob("disjoint", f"{name} {what}", False if t.k in ("sub", "attr", "call") else None, f"every part is cut from {show(t, 3)}", e.where)
            continue
        nx = carried.get(t.a)
        if nx is None:
            R.ob("disjoint", f"{name} {what}", None, "not carried from part to part", e.where)
            continue
        i = indexed(nx[1], "subsample_filenames_and_roi")
        R.ob("disjoint", f"{name} {what}", i[1] == k if i is not None else (False if nostar(nx[1]) is t or nostar(nx[1]) is nostar(nx[0]) or nostar(nx[1]).k == "ite" else None),
             f"the next part is cut from {show(nx[1], 3)}", e.where)
    for at, k in ((FILES, 0), (ROI, 1)):
        for s, sc in flow.walk(seq):
            if s.kind == "store" and s.attr == at:
                i = indexed(s.value, "subsample_filenames_and_roi")
                R.ob("disjoint", f"{name} part {at}", i[1] == k if i is not None else None, show(s.value, 3), s.where)
    # the number of samples
    fractions(P, R, f, seq, e, c, n, frp)
    copies(P, R, f, seq, ev, c, dsp)


def fractions(P, R, f, seq, e, c, n, frp):
    name = f.name
    splits = mk("param", frp)
    n = nostar(n)
    if n.k == "call" and fname(n).split(".")[-1] in ("round", "ceil", "rint"):
        R.ob("fractions", f"{name} rounding", False, show(n, 4), e.where)
    elif n.k == "call" and n.a[0].k != "meth" and fname(n).split(".")[-1] in ("int", "floor") and len(n.a[1]) == 1:
        x = nostar(n.a[1][0])
        while x.k == "call" and fname(x).split(".")[-1] in ("floor", "int"):
            x = nostar(x.a[1][0])
        it = tm.poly_items(x)
        ok = None
        if len(it) == 1:
            k, v = next(iter(it.items()))
            fr = [y for y in k if y.k == "elem" and nostar(y.a[0]) is splits or y.k == "sub" and nostar(y.a[0]) is splits]
            le = [y for y in k if y not in fr]
            if len(fr) == 1 and len(le) == 1 and v <= 1:
                ok = total_of(le[0])
            elif any(y.k == "call" and fname(y).split(".")[-1] in ("round", "ceil") for y in k):
                ok = False
        elif len(it) > 1 and any(mentions(y, lambda z: z is splits) for k in it for y in k):
            ok = False  # one more or fewer than the fraction
        if x.k == "call" and fname(x).split(".")[-1] in ("round", "ceil"):
            ok = False
        R.ob("fractions", f"{name} rounding", ok, show(n, 4), e.where)
    else:
        R.ob("fractions", f"{name} rounding", None, show(n, 3), e.where)
    # the sum, and no negative fraction
    lits = [nostar(l) for g in c.guards for l in literals(g)]
    whole = lambda y: y.k == "call" and fname(y).split(".")[-1] in ("sum", "fsum") and len(y.a[1]) >= 1 and nostar(y.a[1][0]) is splits
    sums = [l for l in lits if l.k in ("le", "lt") and mentions(l, whole)]
    ok = False
    for l in sums:
        it = tm.poly_items(l.a[0])
        pos = [k for k, v in it.items() if v == 1 and len(k) == 1 and whole(k[0])]
        if pos and len(it) == 2 and -1.000001 <= it.get((), 0) <= -0.5:
            ok = True
        elif pos and len(it) != 2:
            ok = ok or None
    if not sums and any(mentions(l, whole) for l in lits):
        ok = None
    R.ob("fractions", f"{name} sum", ok, f"{[show(l, 4) for l in sums]}", e.where)
    el = mk("elem", splits)
    neg = False
    for l in lits:
        t, inner = (True, l) if l.k != "not" else (False, nostar(l.a[0]))
        if inner.k == "call" and fname(inner) in ("all", "any") and inner.a[1] and nostar(inner.a[1][0]).k == "comp":
            cc = nostar(inner.a[1][0]).a
            if len(cc[2]) != 1 or conditions(cc[2][0]) or nostar(cc[2][0][0]) is not splits:
                continue
            q = nostar(cc[1])
            ls = [nostar(z) for z in literals(q)] if t and fname(inner) == "all" else [nostar(z) for z in literals(not_(q))] if not t and fname(inner) == "any" else []
            if any(z.k in ("le", "lt") and tm.poly_items(z.a[0]) == {(el,): -1} for z in ls):
                neg = True
        elif l.k in ("le", "lt") and mentions(l, lambda y: y.k == "call" and fname(y) == "min" and y.a[1] and nostar(y.a[1][0]) is splits):
            neg = True
    if not neg:
        # the same test made split by split
        for l in loops_of(seq).values():
            if l.iter is not None and nostar(l.iter) is splits:
                for g in flow.exit_guards(l.body, "raise"):
                    neg = None
    R.ob("fractions", f"{name} negative", neg, "no fraction below zero is cut", e.where)


def total_of(t):
    t = nostar(t)
    if t.k == "call" and fname(t).split(".")[-1] == "sum" and len(t.a[1]) == 1 and nostar(t.a[1][0]).k == "comp":
        kind, elt, cl = nostar(t.a[1][0]).a
        if len(cl) != 1:
            return None
        src = nostar(cl[0][0])
        return size_of(elt, src) and not conditions(cl[0])
    if t.k == "call" and fname(t) == "len":
        return None
    return None


def copies(P, R, f, seq, ev, c, dsp):
    name = f.name
    ds = mk("param", dsp)
    bases = [(s, sc) for s, sc in flow.walk(seq) if s.kind == "store" and s.attr == ROI]
    for s, sc in bases:
        b = nostar(s.base)
        src = b.a[0] if b.k in ("sub", "elem") else b
        src = nostar(src)
        if b is ds:
            ok = False
        elif src.k == "comp" and nostar(src.a[1]).k == "call":
            ok = copy_call(nostar(src.a[1]), ds)
        elif b.k == "call":
            ok = copy_call(b, ds) and any(y.kind == "call" and y.name in ("deepcopy", "deepcopy_dataset") and cy.loops for y, cy in flow.walk(seq))
        elif src.k in ("mul", "poly", "binop", "repeat") or mentions(src, lambda y: y.k == "call" and y.a[0].k == "ext" and fname(y).endswith("repeat")):
            ok = False
        else:
            ok = None
        R.ob("copies", f"{name} part", ok, show(b, 4), s.where)
        # set up anew
        resets = [e2 for e2, c2 in flow.walk(seq) if e2.kind == "call" and e2.name == "reset" and nostar(e2.recv) is b and c2.loops == sc.loops]
        if resets:
            after = True
            lp = sc.loops[-1] if sc.loops else None
            if lp is not None:
                hits = before(lp.body, lambda y: y.kind == "store" and y.attr == ROI, lambda y: y.kind == "call" and y.name == "reset")
                after = not hits if isinstance(hits, list) else hits
            R.ob("copies", f"{name} reset", True, "reset with its own selection", resets[0].where)
        else:
            cleared = [e2 for e2, c2 in flow.walk(seq) if e2.kind == "store" and e2.attr == "cache" and e2.value is NONE]
            R.ob("copies", f"{name} reset", True if cleared else None if any(e2.kind == "call" and e2.recv is not None and nostar(e2.recv) is b for e2, c2 in flow.walk(seq)) else False,
                 "the copy keeps the cache of the whole", s.where)
    # reset forgets the cache, its intervals are of the old selection
    g = P.cls("streaming.dataset.StreamingDataset").find("reset")
    if g is not None:
        R.unit(g.qual)
        direct = dicted = False

        def word(k):
            if isinstance(k, ast.Name):
                vs = g.module.consts.get(k.id, [])
                k = vs[0] if len(vs) == 1 else k
            return k.value if isinstance(k, ast.Constant) else None

        for x in P.nodes(g):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and x.value.value is None and any(isinstance(y, ast.Attribute) and y.attr == "cache" for y in x.targets):
                direct = True
            if isinstance(x, ast.Dict) and any(word(k) == "cache" and isinstance(v, ast.Constant) and v.value is None for k, v in zip(x.keys, x.values)):
                dicted = True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "dict" and any(k.arg == "cache" and isinstance(k.value, ast.Constant) and k.value.value is None for k in x.keywords):
                dicted = True
        by_name = any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == "setattr" or isinstance(x.func, ast.Attribute) and x.func.attr in ("update", "__setattr__")) for x in P.nodes(g))
        said = any(isinstance(x, (ast.Constant, ast.Attribute, ast.Name)) and "cache" == (x.attr if isinstance(x, ast.Attribute) else word(x)) or isinstance(x, ast.keyword) and x.arg == "cache" for x in P.nodes(g))
        R.ob("copies", "StreamingDataset.reset cache", True if direct or dicted and by_name else None if said else False, "forgets the cache of the old selection", g.qual)
    d = P.funcs.get("litdata.utilities.train_test_split.deepcopy_dataset")
    if d is not None:
        R.unit(d.qual)
        s3, e3 = evaluate(P, d)
        r = nostar(e3.ret)
        R.ob("copies", "deepcopy_dataset", True if r.k == "call" and fname(r).split(".")[-1] == "deepcopy" else False if r.k == "param" or (r.k == "call" and fname(r) in ("copy.copy", "copy")) else None, show(r, 3))
        # what was put aside for copying is put back: the dataset that is split stays as it was
        last = {}
        for e, c in flow.walk(s3):
            if e.kind == "store" and mentions(e.base, lambda x: x.k == "param"):
                last[(nostar(e.base), e.attr)] = (e, c)
        for (b, a), (e, c) in last.items():
            vals = [nostar(x) for _, x in galts(nostar(e.value))]
            back = [x for x in vals if x.k == "attr" and nostar(x.a[0]) is b and x.a[1] == a]
            ok = True if back and all(x in back or x.k == "undef" for x in vals) else False if vals and all(is_const(x) for x in vals) else None
            R.ob("copies", f"deepcopy_dataset: {a} of the dataset", ok, f"left as {show(e.value, 4)}", e.where)


def contains_ev(seq, pred):
    return any(pred(e) for e, c in flow.walk(seq))


def copy_call(t, ds):
    n = fname(t).split(".")[-1]
    if n in ("deepcopy_dataset", "deepcopy"):
        return bool(t.a[1]) and nostar(t.a[1][0]) is ds
    if fname(t) in ("copy.copy", "copy"):
        return False
    return None


# ------------------------------------------------------------------ subsampling
def selected(P, R):
    f = P.func(U + "dataset_utilities.subsample_streaming_dataset")
    R.unit(f.qual)
    seq, ev = shallow(P, f)
    carried = carried_of(seq)
    name = f.name
    n = 0
    for e, c in flow.walk(seq):
        if e.kind != "return" or e.value is None or c.inlines:
            continue
        v = nostar(e.value)
        if v.k != "tuple" or len(v.a[0]) != 2:
            R.ob("paired", f"{name} result", None, show(v, 3), e.where)
            continue
        n += 1
        why = []
        R.ob("paired", f"{name} result {n}", aligned(P, v.a[0][0], v.a[0][1], carried, why=why), "; ".join(why[:2]) or f"{show(v, 3)}"[:160], e.where)
    share = mk("param", "subsample")
    # the copies
    for lid, lp in loops_of(seq).items():
        if lp.kind != "while" or "subsample" not in {k for k in lp.carried}:
            continue
        i, nx = lp.carried["subsample"]
        ph = mk("phi", lid, "subsample")
        d = nostar(tm.sub(nx, ph))
        cond = nostar(lp.cond)
        enough = cond.k in ("le", "lt") and tm.poly_items(cond.a[0]).get((ph,)) == -1 and len([k for k in tm.poly_items(cond.a[0]) if k]) == 1
        lim = tm.poly_items(cond.a[0]).get((), 0) if enough else None
        R.ob("selected", f"{name} unit", (tm.is_num(d) and tm.lin_const(d) == -1 and lim is not None and lim >= 1) if tm.is_num(d) and lim is not None else None,
             f"while {show(cond, 3)}: {show(nx, 3)}")
        ext = [e for e, c in flow.walk(lp.body) if e.kind == "call" and e.name == "extend"]
        kinds = lambda e: "x" if e.kind == "call" and e.name == "extend" else None
        break
    # the rest
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name == "subsample_filenames_and_roi":
            a = passed(e, P.func(U + "subsample.subsample_filenames_and_roi"))
            if a is None:
                continue
            n_ = nostar(list(a.values())[2]) if len(a) == 3 else None
            if n_ is None:
                continue
            why = []
            vals = list(a.values())
            R.ob("selected", f"{name} cut of", aligned(P, vals[0], vals[1], carried, why=why), "; ".join(why[:2]) or "chunks with their regions", e.where)
            ok = None
            if n_.k == "call" and fname(n_).split(".")[-1] in ("round", "ceil", "rint"):
                ok = False
            elif n_.k == "call" and fname(n_).split(".")[-1] in ("int", "floor") and n_.a[1]:
                it = tm.poly_items(nostar(n_.a[1][0]))
                if len(it) == 1:
                    k, v = next(iter(it.items()))
                    fr = [y for y in k if y.k in ("phi", "param") and y.a[-1] == "subsample"]
                    le = [y for y in k if y not in fr]
                    if len(fr) == 1 and len(le) == 1 and v == 1:
                        ok = total_of(le[0])
                elif any(mentions(y, lambda z: z.k in ("phi", "param") and z.a[-1] == "subsample") for k in it for y in k):
                    ok = False
            R.ob("selected", f"{name} number", ok, show(n_, 4), e.where)


# ------------------------------------------------------------------ whole regions, lookup
def whole_region(P, R):
    f = P.func(U + "dataset_utilities.generate_roi")
    R.unit(f.qual)
    seq, ev = shallow(P, f)
    chunks = mk("param", f.params[0])
    for g, t in galts(nostar(ev.ret)):
        c = comp_of(t)
        tok = truth3(g, lambda x: True if x.k == "isinst" else None)
        kind = "tokens" if tok is True and mentions(g, lambda x: x.k == "isinst") else "items"
        what = f"{f.name} {kind}"
        if c is None or len(c[2]) != 1:
            R.ob("whole-region", what, None, show(t, 3))
            continue
        el = mk("elem", chunks)
        elt = nostar(c[1])
        if conditions(c[2][0]) or unlist(c[2][0][0]) is not chunks:
            x = unlist(c[2][0][0])
            R.ob("whole-region", what, False if conditions(c[2][0]) or x.k == "sub" else None, f"regions of {show(x, 3)}")
            continue
        if elt.k not in ("tuple", "list") or len(elt.a[0]) != 2:
            R.ob("whole-region", what, None, show(elt, 3))
            continue
        lo, hi = map(nostar, elt.a[0])
        size, dim = mk("sub", el, const("chunk_size"), 0), mk("sub", el, const("dim"), 0)
        R.ob("whole-region", f"{what} start", True if lo is ZERO else False if is_const(lo) else None, show(lo, 3))
        if kind == "tokens":
            fd = floordiv_of(hi)
            ok = fd is not None and nostar(fd[0]) is dim and (root_attr(fd[1]) == "_block_size" or is_attr(nostar(fd[1]), "_block_size"))
            bad = hi is size or hi is dim or hi.k == "poly"
        else:
            ok = hi is size
            bad = mentions(hi, lambda y: y is dim) or hi.k in ("poly", "binop")
        R.ob("whole-region", f"{what} end", True if ok else False if bad else None, show(hi, 4))


def lookup(P, R):
    f = P.func("streaming.config.load_subsampled_chunks")
    R.unit(f.qual)
    seq, ev = shallow(P, f)
    files, orig = (mk("param", p) for p in f.params[:2])
    name = f.name
    el, fl = mk("elem", orig), mk("elem", files)
    key = mk("sub", el, const("filename"), 0)
    c = comp_of(ev.ret) if ev.ret is not None else None
    if c is not None and len(c[2]) == 1:
        src, elt = nostar(c[2][0][0]), nostar(c[1])
        if src is files and not conditions(c[2][0]):
            if elt.k == "sub" and nostar(elt.a[1]) is fl and nostar(elt.a[0]).k == "comp" and nostar(elt.a[0]).a[0] == "dict":
                d = nostar(elt.a[0]).a
                kv = nostar(d[1]).a[0]
                R.ob("lookup", f"{name} chunk", nostar(kv[0]) is key and nostar(kv[1]) is el, show(elt, 4))
                R.ob("lookup", f"{name} unknown", True, "KeyError")
            else:
                R.ob("lookup", f"{name} chunk", None, show(elt, 4))
        elif src is orig:
            R.ob("lookup", f"{name} chunk", False, f"in the order of {show(src, 2)}")
        else:
            R.ob("lookup", f"{name} chunk", None, show(src, 3))
        return
    puts = [(e, cx) for e, cx in flow.walk(seq) if e.kind == "setitem" and nostar(e.value) is el]
    others = [(e, cx) for e, cx in flow.walk(seq) if e.kind == "setitem" and nostar(e.value) is not el and mentions(e.value, lambda y: y is el)]
    if len(puts) != 1 or others:
        R.ob("lookup", f"{name} chunk", None, f"{len(puts)} places fill the list")
        return
    e, cx = puts[0]
    i = nostar(e.idx)
    # positions of the name of the same chunk
    if i.k == "elem" and nostar(i.a[0]).k == "sub":
        k = nostar(nostar(i.a[0]).a[1])
        R.ob("lookup", f"{name} chunk", k is key if mentions(k, lambda y: y is el) or k.k == "elem" else None, f"at the positions of {show(k, 3)}", e.where)
    elif i.k == "sub":
        R.ob("lookup", f"{name} chunk", False, f"at one position of {show(i, 3)} only", e.where)
    else:
        R.ob("lookup", f"{name} chunk", False if i.k == "idx" and nostar(i.a[0]) is orig else None, f"at {show(i, 3)}", e.where)
    adds = [(a, ac) for a, ac in flow.walk(seq) if a.kind == "call" and a.name == "append" and a.recv is not None and ac.loops and nostar(ac.loops[-1].iter) is files]
    for a, ac in adds:
        r = nostar(a.recv)
        okk = mentions(r, lambda y: y is fl)
        v = nostar(a.args[0]) if a.args else None
        R.ob("lookup", f"{name} positions", (okk and v is mk("idx", files)) if v is not None and (v.k in ("idx", "poly") or is_const(v)) else None, f"{show(r, 3)} gets {show(v, 3)}", a.where)
    over = [(a, ac) for a, ac in flow.walk(seq) if a.kind == "setitem" and ac.loops and nostar(ac.loops[-1].iter) is files and nostar(a.idx) is fl]
    for a, ac in over:
        if not adds:
            R.ob("lookup", f"{name} positions", False, "only the last position of a name is kept", a.where)
    raises = [(a, ac) for a, ac in flow.walk(seq) if a.kind == "raise" and not (a.value is not None and mentions(a.value, lambda y: y.k == "assertion"))]
    real = [a for a, ac in raises if ac.guards and any(mentions(g, lambda y: y.k == "call" and fname(y) in ("any", "all") or y.k == "phi" or y.k == "not") for g in ac.guards)]
    R.ob("lookup", f"{name} unknown", bool(real), "a name without a chunk is an error")
