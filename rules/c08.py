"""C08: chunk contents are looked at only once the file has its full size; copied files appear under their name when complete."""
from .common import *

IL = "streaming.item_loader."
DL = "streaming.downloader."
HARMLESS = ("os.path.exists", "os.path.isfile", "os.stat", "os.path.getsize", "os.remove", "os.path.basename", "os.path.dirname", "os.path.join", "print", "str", "repr", "len", "isinstance",
            "pathlib.Path")


def check(P, R):
    R.rule("size-gate", "the contents of a chunk file are opened, mapped or parsed only on paths where its size was seen to reach the size in the index, or where the loader has already seen that")
    R.rule("ready-mark", "a chunk is remembered as ready only on paths where its size was seen to reach the size in the index")
    R.rule("gate-size", "the size a reader waits for is the size recorded in the index for the requested chunk")
    R.rule("whole-or-nothing", "a copying downloader writes to another name and renames onto the requested one after the copy")
    R.part(P, loaders, sizes, downloaders)


def loader_classes(P):
    return P.cls(IL + "BaseItemLoader").all_subclasses()


def loaders(P, R):
    n = 0
    for cls in loader_classes(P):
        for name in ("load_item_from_chunk", "pre_load_chunk"):
            f = cls.find(name)
            if f is None:
                continue
            n += gate(P, R, cls, f)
    need(range(n), "content accesses or ready marks in item loaders", 6)


def gate(P, R, cls, f):
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"deserialize", "mds_deserialize", "force_download"}, self_cls=cls)
    path = mk("param", "chunk_filepath")
    limit = mk("param", "filesize_bytes")
    if "chunk_filepath" not in f.params:
        raise AnalysisBroken(f"{f.qual}: no chunk_filepath parameter")
    memo = {}

    def is_limit(t):
        t = strip(t)
        return t is limit or is_key(t, "chunk_bytes")

    def size_of_path(t):
        t = strip(t)
        if t.k == "attr" and t.a[1] == "st_size":
            t = strip(t.a[0])
            return t.k == "call" and (fname(t) == "os.stat" and strip(t.a[1][0]) is path or fname(t) == "stat" and mentions(t, lambda x: x is path))
        return t.k == "call" and fname(t) == "os.path.getsize" and strip(t.a[1][0]) is path

    def full(l, pos=True):
        """the condition (when true) shows that the file is complete"""
        l = strip(l)
        key = (l, pos)
        if key in memo:
            return memo[key]
        memo[key] = True  # a phi cycle: decided by the other operand
        r = False
        if l.k in ("le", "lt"):
            ss = [x for x in subterms(l) if size_of_path(x)]
            ls = [x for x in subterms(l) if is_limit(x)]
            r = any(implies_ge(l, s, m) for s in ss for m in ls)
        elif l.k == "eq":
            r = any(size_of_path(x) for x in l.a) and any(is_limit(x) for x in l.a)
        elif l.k == "and":
            r = any(full(x) for x in l.a[0])
        elif l.k == "or":
            r = all(full(x) for x in l.a[0])
        elif l.k == "ite":
            r = all(a is FALSE or full(a) or full(g) or never(g, a) for g, a in galts(l))
        elif l.k == "phi":
            v = next((vv for kk, vv in ev.phis.items() if strip(kk) is l), None)
            r = v is not None and all(x is not None and (strip(x) is FALSE or full(x)) for x in v)
        elif l.k == "const":
            r = l is FALSE
        memo[key] = r
        return r

    def never(g, a):
        """a is false wherever g holds (the other arm of `x and y`)"""
        lits = tm.literals(g)
        return flow.holds(tm.truth(a), lits) is False or tm.simplify_under(tm.truth(a), lits) is FALSE

    def seen(l):
        """inductive: the loader has marked this chunk ready before"""
        l = strip(l)
        if l.k == "in" and strip(l.a[0]) is path and mark_attr(root_attr(l.a[1])):
            return True
        if l.k == "eq" and path in l.a:
            o = [x for x in l.a if x is not path]
            return bool(o) and mark_attr(root_attr(o[0]))
        return False

    def mark_attr(a):
        return a is not None and "chunk_filepath" in a

    def is_mark(e):
        if e.kind == "setitem" and strip(e.idx) is path and mark_attr(root_attr(e.base)):
            return e.value not in (FALSE, NONE)
        if e.kind == "store" and mark_attr(e.attr) and e.base is not None and strip(e.base).k == "self":
            return strip(e.value) is path
        return e.kind == "call" and e.name in ("add", "append") and e.args and strip(e.args[0]) is path and mark_attr(root_attr(e.recv))

    def is_access(e):
        if e.kind != "call" or e.inlined or e.callee in HARMLESS or e.name in ("force_download", "debug", "info", "warning", "_get_log_msg", "replace", "stat", "exists", "is_file", "add", "append", "pop", "discard", "get"):
            return False
        if e.callee is not None and (e.callee.endswith("_get_log_msg")):
            return False
        return any(strip(a) is path for a in list(e.args) + list(e.kw.values()))

    acc, mrk, bad = [], [], []

    def step(st, e):
        if is_mark(e):
            mrk.append(e)
            if not st:
                bad.append(e)
        elif is_access(e):
            acc.append(e)
            if not st:
                bad.append(e)
        if e.kind == "del" and e.idx is not None and strip(e.idx) is path:
            return [False]
        return [st]

    def assume(st, cond):
        for l in tm.literals(cond):
            if full(l) or seen(l):
                return True
        return st

    flow.Typestate(step, assume).run(seq, [False])
    short = f"{cls.name}.{f.name}"
    for e in dict.fromkeys(acc):
        R.ob("size-gate", f"{short}: {call_kind(e).split('.')[-1]}", e not in bad, "reached although the file may still be incomplete" if e in bad else "", e.where)
    for e in dict.fromkeys(mrk):
        R.ob("ready-mark", short, e not in bad, "marked ready although the file may still be incomplete" if e in bad else "", e.where)
    # a file remembered as complete that is gone now has to be waited for again
    member = lambda t: t.k == "in" and strip(t.a[0]) is path and mark_attr(root_attr(t.a[1]))
    if acc and any(member(x) for e, c in flow.walk(seq) for g in c.guards for x in subterms(g)):
        late = []

        def atom(st):
            def at(t):
                if member(t):
                    return st == "held"
                if st == "held" and t.k == "call" and fname(t).split(".")[-1] in ("exists", "isfile", "is_file") and mentions(t, lambda x: x is path):
                    return False
                return None
            return at

        def st2(st, e):
            if e.kind == "del" and e.idx is not None and strip(e.idx) is path or e.kind == "call" and e.name in ("pop", "discard", "remove", "clear") and e.recv is not None and mark_attr(root_attr(e.recv)):
                return ["forgotten"]
            if is_access(e) and st == "held":
                late.append(e)
            return [st]

        flow.Typestate(st2, lambda st, cond: None if truth3(cond, atom(st)) is False else st).run(seq, ["held"])
        R.ob("ready-mark", f"{short}: forgotten when the file is gone", not late, "a remembered chunk is used although its file was removed, while it may be downloaded again", late[0].where if late else f.where)
    return len(set(acc)) + len(set(mrk))


def sizes(P, R):
    g = P.func("streaming.config.ChunksConfig.__getitem__")
    R.unit(g.qual)
    _, ev = evaluate(P, g)
    r = strip(ev.ret)
    idx = mk("attr", mk("param", g.params[1]), "chunk_index", 0)
    if r.k != "tuple" or len(r.a[0]) != 3:
        raise AnalysisBroken("ChunksConfig.__getitem__ does not return three values")
    for a in alts(r.a[0][2]):
        ok = is_key(a, "chunk_bytes") and mentions_attr(a, "_chunks") and mentions(a, lambda x: strip(x) is idx)
        R.ob("gate-size", "config", ok, show(a, 6), g.where)
    f = P.func("streaming.reader.BinaryReader.read")
    R.unit(f.qual)
    seq, _ = evaluate(P, f, opaque={"_try_load_config", "load_item_from_chunk", "__getitem__", "_decrement_local_lock"})
    n = 0
    pidx = mk("param", f.params[1])
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name == "load_item_from_chunk":
            n += 1
            b = bind_args(P, IL + "PyTreeLoader.load_item_from_chunk", e)
            for nm, pos in (("filesize_bytes", 2), ("chunk_filepath", 0)):
                t = strip(b.get(nm, NONE))
                ok = t.k == "sub" and t.a[1] is const(pos) and mentions(t, lambda x: x is pidx) and (mentions_attr(t, "_config") or mentions_attr(t, "config"))
                R.ob("gate-size", f"read passes {nm}", ok, show(t, 5), e.where)
            t = strip(b.get("chunk_index", NONE))
            R.ob("gate-size", "read passes chunk_index", t is mk("attr", pidx, "chunk_index", 0), show(t, 5), e.where)
    need(range(n), "load_item_from_chunk in BinaryReader.read")
    f = P.func("streaming.reader.PrepareChunksThread._pre_load_chunk")
    R.unit(f.qual)
    seq, _ = evaluate(P, f)
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name == "pre_load_chunk":
            ci = mk("param", f.params[1])
            ok = strip(e.args[0]) is ci and mentions(e.args[1], lambda x: x is ci)
            R.ob("gate-size", "preload passes the path of its chunk", ok, show(e.term, 6), e.where)


COPY = ("shutil.copy", "shutil.copyfile", "shutil.copy2", "shutil.move")


def downloaders(P, R):
    n = 0
    for c in ("LocalDownloader", "HFDownloader", "AzureDownloader"):
        f = P.func(DL + c + ".download_file")
        R.unit(f.qual)
        seq, _ = evaluate(P, f)
        dst = mk("param", f.params[2])
        cp, rn, wr = [], [], []
        for e, ctx in flow.walk(seq):
            if e.kind != "call":
                continue
            if e.callee in COPY and len(e.args) > 1:
                cp.append(e)
            if e.callee in ("os.rename", "os.replace") and len(e.args) > 1:
                rn.append(e)
            p = fills(e)
            if p is not None and not ends_with(p, ".lock"):
                wr.append((e, p))
        R.must("whole-or-nothing", f"{c}: the file is renamed to the requested path", [e for e in rn if strip(e.args[1]) is dst], "nothing is renamed to the requested path", f.where)
        for e in cp:
            n += 1
            R.ob("whole-or-nothing", f"{c}: copy goes to another name", strip(e.args[1]) is not dst, show(e.term, 5), e.where)
        for e, p in wr:
            R.ob("whole-or-nothing", f"{c}: write goes to another name", strip(p) is not dst, show(p, 5), e.where)
        for e in rn:
            src = strip(e.args[0])
            seen, bad = before(seq, lambda x: x in cp and strip(x.args[1]) is src or any(x is w and strip(p) is src for w, p in wr), lambda x, e=e: x is e)
            R.ob("whole-or-nothing", f"{c}: rename after the copy", bool(seen) and not bad, "", e.where)
    # subclasses of these add no other write
    for cname in ("LocalDownloaderWithCache",):
        f = P.func(DL + cname + ".download_file")
        seq, _ = evaluate(P, f, policy=lambda *a: False)
        for e, ctx in flow.walk(seq):
            if e.kind == "call" and (e.callee in COPY or writes_to(e) is not None):
                R.ob("whole-or-nothing", cname, False, repr(e)[:200], e.where)
