"""C26: what a loader keeps open or decoded belongs to the chunk it is remembered under."""
from .common import *

IL = "streaming.item_loader."
NOT_CONTENT = ("_counter", "_chunk_filepaths", "_chunk_row_group_item_read_count", "_serializers", "_config", "_chunks", "region_of_interest", "_data_format")


def check(P, R):
    R.rule("handle-path", "the open handle and the path it is remembered under change together on every path through every method")
    R.rule("cache-key", "contents read from a chunk are cached under the number of that chunk")
    R.rule("cache-read", "cached contents are looked up by the number of the requested chunk")
    R.rule("row-group", "a cached row group is stored under the row group number it was read with")
    R.part(P, handle, caches)


def loader_classes(P):
    return P.cls(IL + "BaseItemLoader").all_subclasses()


def handle(P, R):
    cls = P.cls(IL + "PyTreeLoader")
    n = 0
    for m in cls.methods.values():
        if m.name in ("__init__", "__getstate__", "__setstate__"):
            continue
        try:
            seq, ev = evaluate(P, m, opaque={"deserialize", "mds_deserialize", "force_download", "decrypt", "_load_data"}, self_cls=cls)
        except AnalysisBroken:
            continue
        touched = [e for e, c in flow.walk(seq) if e.kind == "store" and e.attr in ("_open_handle", "_chunk_filepath") or closes(e)]
        if not touched:
            continue
        n += 1
        R.unit(m.qual)

        def step(st, e):
            h, p = st
            if e.kind == "store" and e.attr == "_open_handle":
                src, mode = file_of(e.value)
                h = "none" if e.value is NONE else ("new", strip(src)) if src is not None else "?"
            elif e.kind == "store" and e.attr == "_chunk_filepath":
                p = "none" if e.value is NONE else ("new", strip(e.value))
            elif closes(e):
                h = "closed"
            return [(h, p)]

        def assume(st, cond):
            h, p = st
            for l in tm.literals(cond):
                l = strip(l)
                if l.k == "is" and NONE in l.a and any(root_attr(x) == "_open_handle" for x in l.a) and h == "old":
                    h = "none0"  # there was no handle: then no path is remembered either
            return (h, p)

        out = flow.Typestate(step, assume).run(seq, [("old", "old")])
        bad = []
        for (h, p), _ in out["norm"] | out["ret"]:
            ok = h == p or p == "none" or (h == "none0" and p == "old") or "?" in (h, p)
            if not ok:
                bad.append((h, p))
        det = ", ".join(f"handle {d(h)}, path {d(p)}" for h, p in bad)
        R.ob("handle-path", f"PyTreeLoader.{m.name}", not bad, ("ends with " + det) if bad else "", m.where)
    need(range(n), "methods that touch the open handle", 2)


def d(x):
    return x if isinstance(x, str) else f"of {show(x[1], 3)}"


def closes(e):
    return e.kind == "call" and e.name == "close" and e.recv is not None and root_attr(strip(e.recv)) == "_open_handle"


def caches(P, R):
    n = 0
    for cls in loader_classes(P):
        for name in ("load_item_from_chunk", "pre_load_chunk"):
            f = cls.find(name) if hasattr(cls, "find") else cls.methods.get(name)
            if f is None or "chunk_index" not in f.params:
                continue
            seq, ev = evaluate(P, f, opaque={"deserialize", "mds_deserialize", "force_download"}, self_cls=cls)
            R.unit(f.qual)
            ci, path = mk("param", "chunk_index"), mk("param", "chunk_filepath")
            for e, c in flow.walk(seq):
                for key, base, val in entries(e):
                    attr = owner(base)
                    if attr is None or attr in NOT_CONTENT:
                        continue
                    if not (mentions(val, lambda x: x is path) or mentions_call(val, "read_row_group")):
                        continue
                    n += 1
                    chain = keys(base) + [strip(key)]
                    R.ob("cache-key", f"{cls.name}.{attr}", chain[0] is ci, f"{show(e.term, 4) if e.term is not None else ''} key {show(chain[0], 4)}", e.where)
                    rg = [x for x in subterms(val) if x.k == "call" and fname(x) == "read_row_group" and x.a[1]]
                    if len(chain) > 1 and rg:
                        R.ob("row-group", f"{cls.name}.{attr}", strip(rg[0].a[1][0]) is chain[1], f"{show(rg[0], 4)} stored under {show(chain[1], 4)}", e.where)
            seen = set()
            for x in subterms(ev.ret):
                if x.k == "sub" and x.a[0].k == "attr" and x.a[0].a[0].k == "self" and x.a[0].a[1] not in NOT_CONTENT:
                    k = (x.a[0].a[1], strip(x.a[1]))
                    if k in seen:
                        continue
                    seen.add(k)
                    if strip(x.a[1]).k == "const":
                        continue
                    n += 1
                    R.ob("cache-read", f"{cls.name}.{x.a[0].a[1]}", strip(x.a[1]) is ci, show(x, 4), f.where)
                if x.k == "call" and x.a[0].k == "meth" and x.a[0].a[1] == "get" and x.a[0].a[0].k == "attr" and x.a[0].a[0].a[0].k == "self" and x.a[0].a[0].a[1] not in NOT_CONTENT and x.a[1]:
                    n += 1
                    R.ob("cache-read", f"{cls.name}.{x.a[0].a[0].a[1]}", strip(x.a[1][0]) is ci, show(x, 4), f.where)
    need(range(n), "cached chunk contents", 5)


def entries(e):
    """(key, container, value) written by an event"""
    if e.kind == "setitem":
        yield e.idx, e.base, e.value
    elif e.kind == "store" and e.value is not None and strip(e.value).k == "dict" and strip(e.base).k == "self":
        for k, v in strip(e.value).a[0]:
            yield k, mk("attr", e.base, e.attr, 0), v
    elif e.kind == "call" and e.name == "setdefault" and len(e.args) == 2:
        yield e.args[0], e.recv, e.args[1]


def owner(base):
    t = strip(base)
    while t.k in ("sub", "setitem", "upd", "mut", "ite"):
        t = t.a[1] if t.k == "ite" else t.a[0]
    return t.a[1] if t.k == "attr" and t.a[0].k == "self" else None


def keys(base):
    t = strip(base)
    out = []
    while t.k in ("sub", "setitem", "upd", "mut", "ite"):
        if t.k == "sub":
            out.append(strip(t.a[1]))
        t = t.a[1] if t.k == "ite" else t.a[0]
    return out[::-1]
