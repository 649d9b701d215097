"""C27: every row of every Parquet file is served once, by its position in its file."""
from .common import *
from .c25 import all_loops

PQ = "utilities.parquet."
LD = "streaming.item_loader.ParquetLoader"


def check(P, R):
    R.rule("row", "the row read is the one at the position of the sample in its file, whatever the sizes of its row groups")
    R.rule("listed", "every Parquet file of the folder is listed once")
    R.rule("described", "the name, size, number of rows and types recorded for a file are those of that file")
    R.rule("indexed", "every listed file is recorded in the index once, in the order of the list, and files that don't fit are refused")
    R.rule("complete", "an index that exists under its name is complete")
    R.rule("own", "an index kept for later runs is used for the folder it was made from only")
    R.rule("loader", "the index names the loader that can read the files, and another one is refused")
    R.part(P, rows, listed, described, indexed, complete, own, loader)


# ---- reading

def count_of_group(t):
    """g when t is the number of rows of row group g of a file"""
    t = strip(t)
    if t.k == "attr" and t.a[1] == "num_rows":
        m = strip(t.a[0])
        if m.k == "call" and fname(m).split(".")[-1] == "row_group" and m.a[1]:
            return strip(m.a[1][0])
    return None


def rows(P, R, rule="row"):
    f = P.func(LD + ".load_item_from_chunk")
    R.unit(f.qual)
    R.unit(LD + "._get_item_with_low_memory")
    R.unit(LD + "._get_item")
    seq, ev = evaluate(P, f, opaque={"force_download", "_get_log_msg"}, self_cls=P.cls(LD))
    want = strip(tm.sub(P_(f, "index"), P_(f, "begin")))
    calls = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "row" and e.recv is not None and e.args]
    need(calls, "rows taken from a table")
    loops = {l.lid: l for l in all_loops(seq)}
    for e, c in calls:
        w = strip(e.args[0])
        groups = []
        for x in subterms(strip(e.recv)):
            if x.k == "call" and fname(x).split(".")[-1] == "read_row_group" and x.a[1] and strip(x.a[1][0]) not in groups:
                groups.append(strip(x.a[1][0]))
        if not groups:
            R.ob(rule, "a file read as a whole: the position of the sample", same_or_unknown(w, want), f"{show(w, 5)}", e.where)
            continue
        if len(groups) > 1:
            R.ob(rule, "a row group: its number", None, "", e.where)
            continue
        ok, why = located(groups[0], w, want, loops)
        R.ob(rule, "a row group: the number of the group and the position in it", ok, why, e.where)
    # what is returned is what was read
    rets = [x for _, x in galts(strip(ev.ret))] if ev.ret is not None else []
    bad = [x for x in rets if not (x.k == "call" and fname(x).split(".")[-1] == "row")]
    R.ob(rule, "the row is what is returned", True if rets and not bad else None if not all(x is NONE for x in bad) else False, show(bad[0], 4) if bad else "", f.where)


def P_(f, name):
    return tm.mk("param", name)


def same_or_unknown(t, want):
    t = strip(t)
    if t is want:
        return True
    if t.k == "ite":
        xs = [same_or_unknown(x, want) for _, x in galts(t)]
        return False if False in xs else None if None in xs else True
    d = strip(tm.sub(t, want))
    if tm.is_num(d):
        return d.a[1] == 0
    if all(x.k in ("poly", "const", "param") for x in subterms(t)):
        return False
    return None


def located(g, w, want, loops):
    cs = [count_of_group(x) for x in list(subterms(g)) + list(subterms(w))]
    cs = [x for x in cs if x is not None]
    if g.k != "phi" and w.k != "phi":
        if cs and all(is_const(x) for x in cs):
            return False, f"all row groups are taken to have the rows of group {show(cs[0], 2)}: {show(g, 4)}, {show(w, 4)}"
        if not mentions_any_size(g):
            return (False, f"the group doesn't depend on the sizes of the groups: {show(g, 4)}") if g is not want else (None, "")
        return None, f"{show(g, 4)}, {show(w, 4)}"
    if g.k == "phi" and w.k == "phi" and g.a[0] == w.a[0] and g.a[0] in loops:
        return inductive(g, w, want, loops[g.a[0]])
    return None, f"{show(g, 4)}, {show(w, 4)}"


def mentions_any_size(t):
    return mentions(t, lambda x: x.k in ("phi", "elem", "idx", "carry") or (x.k == "attr" and x.a[1] in ("num_rows", "num_row_groups")) or x.k == "call" or (x.k == "attr" and x.a[0] is not None and strip(x.a[0]).k == "self"))


def inductive(g, w, want, lp):
    """rows before group g + position in it is the position in the file, and the position is within the group at the end"""
    car = {n: (strip(a), strip(b)) for n, (a, b) in lp.carried.items() if a is not None and b is not None}
    if g.a[1] not in car or w.a[1] not in car:
        return None, "not carried"
    gi, gn = car[g.a[1]]
    wi, wn = car[w.a[1]]
    # which terms stand for the number of rows of the current group at the head of a round
    sizes = set()
    for n, (a, b) in car.items():
        ga, gb = count_of_group(a), count_of_group(b)
        if ga is not None or gb is not None:
            if ga is gi and gb is gn:
                sizes.add((lp.lid, n))
            elif ga is not None and gb is not None and (is_const(gb) or gb is g):
                return False, f"after a group the rows of {show(gb, 3)} are used for {show(gn, 3)}"

    def is_size(t):
        t = strip(t)
        return (t.k == "phi" and (t.a[0], t.a[1]) in sizes) or count_of_group(t) is g

    if not (tm.is_num(gi) and gi.a[1] == 0):
        return (False, f"starts at group {show(gi, 3)}") if is_const(gi) else (None, "")
    s = same_or_unknown(wi, want)
    if s is not True:
        return s, f"starts at {show(wi, 4)}"
    step = strip(tm.sub(gn, g))
    if not (tm.is_num(step) and step.a[1] == 1):
        return (False, f"goes on with group {show(gn, 3)}") if tm.is_num(step) else (None, "")
    took = strip(tm.sub(w, wn))
    if not is_size(took):
        cg = count_of_group(took)
        if cg is not None and (is_const(cg) or cg is gn) or tm.is_num(took) or (took.k == "poly" and any(is_size(x) for x in subterms(took))):
            return False, f"{show(took, 4)} rows are skipped for a group"
        return None, f"{show(took, 4)} rows skipped"
    # the loop ends exactly when the position is within the group
    conds = []
    for e, c in flow.walk(lp.body):
        if e.kind == "break" and len(c.loops) == 0:
            conds.append(("break", tm.and_(*[strip(x) for x in c.guards])))
    if not conds and lp.cond is not None:
        conds.append(("while", strip(lp.cond)))
    if len(conds) != 1:
        return None, "the end of the search"
    kind, cond = conds[0]
    if cond.k == "not":
        kind = "break" if kind == "while" else "while"
        cond = strip(cond.a[0])
    if cond.k not in ("le", "lt"):
        return None, show(cond, 4)
    p = strip(cond.a[0])
    size = next((x for x in subterms(p) if is_size(x)), None)
    if size is None:
        return None, show(cond, 4)
    d1 = strip(tm.sub(p, tm.sub(size, w)))   # size - w (<|<=) 0: go on
    d2 = strip(tm.sub(p, tm.sub(w, size)))   # w - size (<|<=) 0: within
    for d, is_on in ((d1, True), (d2, False)):
        if not tm.is_num(d):
            continue
        k = d.a[1]
        # integers: X + k <= 0 / X + k < 0; needed: on: size - w <= 0, within: w - size < 0, i.e. w - size + 1 <= 0
        k = k + 1 if cond.k == "lt" else k
        good = 0 if is_on else 1
        if is_on != (kind == "while"):
            return False, f"the search ends when {show(cond, 4)}"
        return (k == good), f"the search {'goes on' if kind == 'while' else 'ends'} when {show(cond, 4)}"
    return None, show(cond, 4)


# ---- the index

def dir_classes(P):
    return [c for c in P.cls(PQ + "ParquetDir").all_subclasses() if c.name != "ParquetDir"]


def listed(P, R):
    n = 0
    for cls in dir_classes(P):
        f = cls.find("__init__")
        if f is None or f.cls is not cls:
            continue
        R.unit(f.qual)
        seq, ev = evaluate(P, f, policy=lambda a, b, d: False, self_cls=cls)
        apps = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "append" and e.recv is not None and root_attr(strip(e.recv)) == "files"]
        if not apps:
            R.ob("listed", cls.name, None, "", f.where)
            continue
        n += 1
        for e, c in apps:
            v = strip(e.args[0])
            it = strip(peel(c.loops[-1].iter)) if c.loops and c.loops[-1].iter is not None else None
            if v.k != "elem" or it is None or len(c.loops) > 1:
                R.ob("listed", f"{cls.name}: the listed files", None, show(v, 4), e.where)
                continue
            cut = it.k in ("slice",) or mentions(it, lambda x: x.k == "slice")
            name = fname(it).split(".")[-1] if it.k == "call" else ""
            R.ob("listed", f"{cls.name}: all entries of the folder", False if cut else True if name in ("listdir", "ls") else None, show(it, 4), e.where)
            bad = [l for l in c.guards for l in tm.literals(l) if mentions(l, lambda x: strip(x) is v) and not selects(strip(l), v)]
            R.ob("listed", f"{cls.name}: every Parquet file is taken", False if any(drops(strip(l), v) for l in bad) else None if bad else True, "; ".join(show(l, 4) for l in bad), e.where)
        more = [e for e, c in flow.walk(seq) if e.kind == "call" and e.name in ("pop", "remove", "clear") and e.recv is not None and root_attr(strip(e.recv)) == "files"]
        R.ob("listed", f"{cls.name}: none is taken out of the list", not more, "", f.where)
    need(range(n), "listings of Parquet files", 2)


def of_entry(t, v):
    """the entry itself or its name"""
    t = strip(t)
    return t is strip(v) or (t.k == "sub" and strip(t.a[0]) is strip(v))


def selects(l, v):
    """a condition that holds for every Parquet file"""
    if l.k == "call" and l.a[0].k == "meth" and l.a[0].a[1] == "endswith":
        s = eval_str(strip(l.a[1][0])) if l.a[1] else None
        return s is not None and ".parquet".endswith(s)
    if l.k == "eq" and any(is_const(strip(x)) and eval_str(strip(x)) == "file" for x in l.a):
        return True
    if l.k == "isinst":
        return True
    if l.k == "in" and is_const(strip(l.a[0])):
        return True
    return l.k == "call" and fname(l).split(".")[-1] in ("isfile", "exists")


def drops(l, v):
    """a condition on the name or size of a file that isn't about its being a Parquet file"""
    if l.k == "not":
        x = strip(l.a[0])
        return x.k == "call" and x.a[0].k == "meth" and x.a[0].a[1] in ("startswith", "endswith")
    if l.k == "call" and l.a[0].k == "meth" and l.a[0].a[1] in ("startswith", "endswith"):
        return True
    return l.k in ("lt", "le")


def described(P, R):
    n = 0
    for cls in dir_classes(P):
        f = cls.find("task")
        if f is None or f.cls is not cls:
            continue
        R.unit(f.qual)
        seq, ev = evaluate(P, f, policy=lambda a, b, d: a.module is b.module, self_cls=cls)
        par = f.params[1]
        got = {}
        for k in ("file_name", "num_rows", "file_size", "data_types"):
            got[k] = dict_get(strip(ev.ret), k) if ev.ret is not None else None
        if any(v is None for v in got.values()):
            R.ob("described", cls.name, None, "", f.where)
            continue
        n += 1
        got = {k: strip(v) for k, v in got.items()}
        for k, v in sorted(got.items()):
            R.ob("described", f"{cls.name}: {k} is of the file given", mentions_param(v, par), show(v, 4), f.where)
        nr = got["num_rows"]
        ok = nr.k == "attr" and nr.a[1] == "num_rows" and strip(nr.a[0]).k == "attr" and strip(nr.a[0]).a[1] == "metadata"
        if not ok:
            ok = False if count_of_group(nr) is not None or nr.k == "poly" or is_const(nr) or (nr.k == "attr" and nr.a[1] in ("num_row_groups", "num_columns")) else None
        R.ob("described", f"{cls.name}: the number of rows of the whole file", ok, show(nr, 4), f.where)
        fs = got["file_size"]
        ok = (fs.k == "call" and fname(fs).split(".")[-1] == "getsize") or (fs.k == "sub" and is_const(strip(fs.a[1])) and eval_str(strip(fs.a[1])) == "size") or (fs.k == "attr" and fs.a[1] == "st_size")
        R.ob("described", f"{cls.name}: the size of the whole file", True if ok else False if fs.k in ("poly", "const") else None, show(fs, 4), f.where)
        fn = got["file_name"]
        base = fn.k == "call" and fname(fn).split(".")[-1] == "basename" or fn.k == "param"
        R.ob("described", f"{cls.name}: the name of the file", True if base else False if mentions_call(fn, "splitext", "lower", "replace", "rstrip", "strip") or fn.k == "cat" else None, show(fn, 4), f.where)
    need(range(n), "descriptions of Parquet files", 2)


KEYS = {"chunk_bytes": "file_size", "chunk_size": "num_rows", "filename": "file_name"}


def indexed(P, R):
    f = P.func("streaming.writer.index_parquet_dataset")
    R.unit(f.qual)
    R.unit(PQ + "ParquetDir.__iter__")
    seq, ev = evaluate(P, f, policy=lambda a, b, d: False)
    # what is recorded for a file
    infos = []
    for e, c in flow.walk(seq):
        if e.kind == "setitem" and e.value is not None and all(dict_get(strip(e.value), k) is not None for k in KEYS):
            infos.append((e, c, strip(e.value)))
        if e.kind == "call" and e.name == "append" and e.args and all(dict_get(strip(e.args[0]), k) is not None for k in KEYS):
            infos.append((e, c, strip(e.args[0])))
    if not infos:
        R.ob("indexed", "what is recorded", None, "", f.where)
        return
    for e, c, v in infos:
        for k, src in sorted(KEYS.items()):
            x = strip(dict_get(v, k))
            ok = x.k == "sub" and is_const(strip(x.a[1])) and eval_str(strip(x.a[1])) == src
            other = x.k == "sub" and is_const(strip(x.a[1])) and eval_str(strip(x.a[1])) in KEYS.values()
            R.ob("indexed", f"{k} is the {src} of the file", True if ok else False if other or is_const(x) else None, show(x, 4), e.where)
        if e.kind == "setitem":
            k = strip(e.idx)
            # under its own number in the list
            ok = k.k == "sub" and strip(k.a[1]) is const(1) and strip(k.a[0]).k == "elem"
            R.ob("indexed", "recorded under the number of the file", True if ok else False if mentions(k, lambda x: x.k == "sub" and is_const(strip(x.a[1])) and eval_str(strip(x.a[1])) in ("num_rows", "file_size", "data_types")) or is_const(k) else None, show(k, 4), e.where)
        skipped = [l for g in c.guards for l in tm.literals(g) if mentions(l, lambda x: x.k == "elem")]
        fits = [l for l in skipped if mentions_key(l, "data_types") or mentions_key(l, "data_format")]
        R.ob("indexed", "every listed file is recorded", False if len(skipped) > len(fits) and any(strip(l).k in ("lt", "le", "eq", "not", "sub", "call") for l in skipped if l not in fits) else True, "; ".join(show(l, 4) for l in skipped if l not in fits), e.where)
    # files that don't fit
    rs = [(e, c) for e, c in flow.walk(seq) if e.kind == "raise" and any(mentions_key(g, "data_types") for g in c.guards)]
    R.ob("indexed", "a file whose types differ is refused", bool(rs), "nothing is raised", f.where)
    for e, c in rs:
        gs = [strip(l) for g in c.guards for l in tm.literals(g) if mentions_key(l, "data_types")]
        eq = [l for l in gs if l.k == "not" and strip(l.a[0]).k == "eq"]
        R.ob("indexed", "refused when the types differ", True if eq else False if any(l.k in ("eq", "lt", "le") for l in gs) else None, "; ".join(show(l, 4) for l in gs), e.where)
    # written in order, all of them
    ws = [e for e, c in flow.walk(seq) if e.kind == "call" and e.name == "write_index"]
    if not ws and not any(e.kind == "call" and (e.name or "") in ("write_index", "dump", "dumps", "write", "write_text") for e, c in flow.walk(seq)):
        R.ob("indexed", "all recorded files are written", False, "no index is written", f.where)
    else:
        need(ws, "the index is written")
    for e in ws:
        v = strip(e.args[0])
        if v.k == "poly" or mentions(v, lambda x: x.k == "slice"):
            R.ob("indexed", "all recorded files are written", False, show(v, 4), e.where)
        rev = mentions(v, lambda x: x.k == "call" and (fname(x).split(".")[-1] == "sorted" and any(k == "key" and not identity(y) for k, y in kwargs(x)) or fname(x).split(".")[-1] in ("reversed", "set", "shuffle") or any(k == "reverse" for k, _ in kwargs(x))))
        R.ob("indexed", "written in the order of the list", False if rev else True, show(v, 3), e.where)
    # the iteration
    g = P.func(PQ + "ParquetDir.__iter__")
    seq, ev = evaluate(P, g, policy=lambda a, b, d: False)
    ys = [(e, c) for e, c in flow.walk(seq) if e.kind == "yield"]
    need(ys, "described files")
    for e, c in ys:
        v = strip(e.value if e.value is not None else e.term)
        skip = [l for gd in c.guards for l in tm.literals(gd)]
        R.ob("indexed", "every file is described", False if skip and any(mentions(l, lambda x: x.k in ("elem", "call")) for l in skip) else True, "; ".join(show(l, 4) for l in skip), e.where)
        whole = mentions_attr(v, "files")
        part = mentions(v, lambda x: x.k == "slice")
        R.ob("indexed", "all files of the list are described", False if part else True if whole else None, show(v, 3), e.where)
        if v.k == "tuple" and len(v.a[0]) == 2:
            num, meta = strip(v.a[0][1]), strip(v.a[0][0])
            R.ob("indexed", "the number handed on is the one of the described file", number_of(num, meta), f"{show(num, 5)} for {show(meta, 5)}", e.where)


def identity(t):
    """a sorting key that keeps the order of numbers"""
    t = strip(t)
    return t is NONE or (t.k == "ext" or t.k == "glob" or t.k == "builtin") and str(t.a[-1]).split(".")[-1] == "int" or t.k not in ("ext", "glob", "builtin", "global")


def kwargs(x):
    return x.a[2] if x.k == "call" and len(x.a) > 2 and x.a[2] else ()


def number_of(num, meta):
    """futures[future] for future.result(), with future -> (number, file)"""
    if num.k == "sub" and strip(num.a[1]) in (const(0), const(1)) and strip(num.a[0]).k == "sub":
        key = strip(strip(num.a[0]).a[1])
        fut = [strip(x.a[0].a[0]) for x in subterms(meta) if x.k == "call" and x.a[0].k == "meth" and x.a[0].a[1] == "result"]
        if fut and fut[0] is key:
            if any(x.k == "call" and fname(x).split(".")[-1] == "as_completed" for x in subterms(key)):
                pass
            t = [x for x in subterms(strip(strip(num.a[0]).a[0])) if x.k == "tuple" and len(x.a[0]) == 2 and strip(x.a[0][0]).k == "tuple" or x.k == "tuple" and len(x.a[0]) == 2 and strip(x.a[0][1]).k == "tuple"]
            for x in t:
                inner = strip(x.a[0][1])
                if inner.k == "tuple":
                    i = strip(num.a[1]).a[1]
                    if i < len(inner.a[0]):
                        y = strip(inner.a[0][i])
                        return True if y.k == "idx" else False if y.k == "elem" else None
            return None
        return None
    if num.k == "idx":
        # the number of the round: right only when the rounds follow the list
        if mentions(meta, lambda x: x.k == "call" and fname(x).split(".")[-1] == "as_completed"):
            return False
        return None
    return None


def complete(P, R):
    """the name of the index is given to a file only when it is written"""
    n = 0
    for cls in [P.cls(PQ + "ParquetDir")] + dir_classes(P):
        f = cls.methods.get("write_index")
        if f is None:
            continue
        R.unit(f.qual)
        seq, ev = evaluate(P, f, policy=lambda a, b, d: a.module is b.module, self_cls=cls)
        dumps = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name in ("dump",) and len(e.args) > 1]
        for e, c in dumps:
            path, mode = file_of(e.args[1])
            if path is None:
                R.ob("complete", f"{cls.name}: where the index is written", None, show(e.args[1], 4), e.where)
                continue
            n += 1
            path = strip(path)
            d = strip(e.args[0])
            for k, p in (("chunks", f.params[1]), ("config", f.params[2])):
                v = dict_get(d, k)
                R.ob("complete", f"{cls.name}: the {k} in the index", None if v is None else True if strip(v).k == "param" and strip(v).a[0] == p else False if mentions(v, lambda x: x.k == "slice") or not mentions_param(v, p) else None, show(v, 4) if v is not None else "", e.where)
            final = path.k == "join" and is_index_name(path)
            if final:
                # only for a copy that is sent elsewhere and removed afterwards
                gone = [x for x, _ in flow.walk(seq) if x.kind == "call" and x.name in ("remove", "unlink") and x.args and strip(x.args[0]) is path]
                R.ob("complete", f"{cls.name}: the index isn't written under its name", bool(gone), f"written to {show(path, 4)}", e.where)
            else:
                mv = [x for x, _ in flow.walk(seq) if x.kind == "call" and x.name in ("replace", "rename", "move") and len(x.args) == 2 and strip(x.args[0]) is path]
                ok = bool(mv) and all(is_index_name(strip(x.args[1])) for x in mv)
                R.ob("complete", f"{cls.name}: the written index gets its name", ok if mv else False, f"written to {show(path, 4)}", e.where)
                if mv:
                    inside = [x for x, cx in flow.walk(seq) if x in mv and any(strip(w) is strip(e.args[1]) or mentions(w, lambda y: strip(y) is path) for w in withs_of(cx))]
                    first = order(seq, lambda x: x is e, lambda x: x in mv)
                    R.ob("complete", f"{cls.name}: it gets its name when it is written", not inside and first, "renamed while it is open or before it is written", e.where)
        ups = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "write" and c.loops]
        for e, c in ups:
            gs = [g for g in c.guards if mentions(g, lambda x: x.k == "elem")]
            R.ob("complete", f"{cls.name}: all of the index is uploaded", not gs, "", e.where)
    need(range(n), "written indexes")


def is_index_name(t):
    ps = strip(t).a[0] if strip(t).k == "join" else ()
    return bool(ps) and is_const(strip(ps[-1])) and eval_str(strip(ps[-1])) == "index.json"


def withs_of(c):
    return [x if not isinstance(x, tuple) else x[0] for x in (c.withs or ())]


def order(seq, first, then):
    """on every path, then only after first"""
    bad = []

    def step(st, e):
        if e.kind == "call" and first(e):
            return [True]
        if e.kind == "call" and then(e) and not st:
            bad.append(e)
        return [st]
    flow.Typestate(step, lambda s, c: s).run(seq, [False])
    return not bad


def own(P, R):
    f = P.func(PQ + "default_cache_dir")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    v = strip(ev.ret)
    h = [x for x in subterms(v) if x.k == "call" and fname(x).split(".")[-1] in ("sha256", "md5", "sha1", "sha512", "blake2b")]
    ok = bool(h)
    whole = False
    for x in h:
        a = strip(x.a[1][0]) if x.a[1] else None
        whole = a is not None and (a.k == "param" or a.k == "call" and a.a[0].k == "meth" and a.a[0].a[1] == "encode" and strip(a.a[0].a[0]).k == "param")
    R.ob("own", "the folder of the index of an url is made from the whole url", True if whole else False if h or not mentions_param(v, f.params[0]) else None, show(v, 6), f.where)
    cut = mentions(v, lambda x: x.k == "slice")
    R.ob("own", "urls have folders of their own", False if cut and short_cut(v) else True, show(v, 6), f.where)
    g = P.func("utilities.hf_dataset.index_hf_dataset")
    R.unit(g.qual)
    seq, ev = evaluate(P, g, policy=lambda a, b, d: False)
    cds = [e for e, c in flow.walk(seq) if e.kind == "call" and e.name == "default_cache_dir"]
    need(cds, "folder of the index")
    for e in cds:
        a = strip(e.args[0]) if e.args else strip(kwnamed(e.kw).get("url"))
        R.ob("own", "the folder is that of the url", a.k == "param" and a.a[0] == g.params[0], show(a, 4), e.where)
    cd = strip(cds[0].term) if cds[0].term is not None else None
    ix = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "index_parquet_dataset"]
    need(ix, "indexing")
    for e, c in ix:
        t = target_of(P, e)
        a0 = strip(e.args[0])
        a1 = strip(e.args[1]) if len(e.args) > 1 else strip(kwnamed(e.kw).get("cache_dir")) if kwnamed(e.kw).get("cache_dir") is not None else None
        R.ob("own", "what is indexed is the url", a0.k == "param" and a0.a[0] == g.params[0], show(a0, 4), e.where)
        R.ob("own", "the index is written to the folder of the url", None if a1 is None else a1.k == "call" and fname(a1).split(".")[-1] == "default_cache_dir", show(a1, 4) if a1 is not None else "", e.where)
        # indexed unless there is an index
        gs = [strip(l) for gd in c.guards for l in tm.literals(gd) if mentions_call(l, "exists", "isfile")]
        pos = [l for l in gs if l.k != "not"]
        R.ob("own", "indexed when there is no index", not pos and bool(gs) or (None if not gs else False), guards_str(c)[:100], e.where)
        for l in gs:
            x = strip(l.a[0]) if l.k == "not" else l
            p = strip(x.a[1][0]) if x.k == "call" and x.a[1] else None
            R.ob("own", "an index is there when its file is", None if p is None else True if is_index_name(p) else False if p.k == "call" and fname(p).split(".")[-1] == "default_cache_dir" else None, show(x, 4), e.where)
    rets = [x for _, x in galts(strip(ev.ret))]
    R.ob("own", "the folder of the url is handed back", all(x.k == "call" and fname(x).split(".")[-1] == "default_cache_dir" for x in rets), show(ev.ret, 4), g.where)


def short_cut(v):
    for x in subterms(v):
        if x.k == "slice":
            hi = [strip(y) for y in x.a if isinstance(y, T)]
            if any(tm.is_num(y) and 0 < y.a[1] < 16 for y in hi):
                return True
    return False


def loader(P, R):
    f = P.func("streaming.writer.index_parquet_dataset")
    seq, ev = evaluate(P, f, policy=lambda a, b, d: False)
    names = []
    for e, c in flow.walk(seq):
        for t in list(e.args or ()) + [e.value]:
            if t is None:
                continue
            for x in subterms(strip(t)):
                v = dict_get(x, "item_loader") if x.k == "dict" else None
                if v is not None:
                    names.append(strip(v))
    ok = None
    if names:
        v = names[0]
        ok = True if show(v, 4).endswith("ParquetLoader.__name__") or (is_const(v) and eval_str(v) == "ParquetLoader") else False if is_const(v) or show(v, 4).endswith("Loader.__name__") else None
    R.ob("loader", "the index names the loader", ok, show(names[0], 4) if names else "", f.where)
    g = P.func("streaming.dataset.StreamingDataset.__init__")
    R.unit(g.qual)
    seq, ev = evaluate(P, g, policy=lambda a, b, d: False)
    rs = [(e, c) for e, c in flow.walk(seq) if e.kind == "raise" and any(mentions(x, lambda y: y.k == "isinst" and "ParquetLoader" in show(y, 4)) for x in c.guards)]
    R.ob("loader", "another loader is refused for a dataset on Hugging Face", True if rs else None, "", g.where)
    h = P.func("streaming.config.ChunksConfig._validate_item_loader")
    R.unit(h.qual)
    seq, ev = evaluate(P, h)
    rs = [(e, c) for e, c in flow.walk(seq) if e.kind == "raise" and any(mentions_key(x, "item_loader") for x in c.guards)]
    good = [c for e, c in rs if any(strip(l).k == "not" and strip(strip(l).a[0]).k == "eq" and mentions_key(l, "item_loader") for gd in c.guards for l in tm.literals(gd))]
    R.ob("loader", "a loader other than the one of the index is refused", bool(rs) and (bool(good) or None), "nothing is raised", h.where)
    k = P.func("streaming.config.ChunksConfig.__init__")
    seq, ev = evaluate(P, k, policy=lambda a, b, d: False)
    calls = [c for e, c in flow.walk(seq) if e.kind == "call" and e.name == "_validate_item_loader"]
    R.ob("loader", "the loader is checked whenever an index is read", bool(calls), "", k.where)


