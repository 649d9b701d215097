"""C16: an optimize checkpoint is used only for the run that wrote it."""
from .common import *
from .c14 import is_rank

DPR = "processing.data_processor.DataProcessor"
BW = "processing.data_processor.BaseWorker"
WR = "streaming.writer.BinaryWriter"


def check(P, R):
    R.rule("compared", "recorded chunks are taken over only where the recorded number of workers and items of every worker equal those of this run")
    R.rule("matching", "a worker's chunks and position come from the checkpoint file of that worker")
    R.rule("own-checkpoint", "a worker reads the checkpoint saved under its own number over all nodes")
    R.rule("same-config", "the recorded writer configuration and data format must equal those of this run")
    R.rule("written", "a checkpoint names the chunks closed so far, their configuration and how many items they hold; the settings file names the workers and all their items")
    R.rule("resume", "a resumed worker gets its chunks, its position, its configuration and its items after the position, and numbers new chunks after the recorded ones")
    R.rule("known-format", "a worker with nothing left to write keeps the format of its recorded chunks")
    R.rule("order", "a checkpoint is uploaded after the chunks it names, by the same uploader")
    R.rule("in-order", "with checkpoints the items of a worker are processed in order")
    R.rule("inputs-counted", "every processed input counts in the recorded position")
    R.rule("refused", "a recipe whose inputs give any number of samples has no checkpoints")
    R.rule("cleaned", "checkpoints are removed before a run without them, and after a run with them has finished")
    R.part(P, load, written, resume, writer_state, order, in_order, counted, cleaned)


def sub_key(t, key):
    """t is X["key"] or X.get("key") -> X"""
    t = strip(t)
    k = const(key)
    if t.k == "sub" and t.a[1] is k:
        return strip(t.a[0])
    if t.k == "call" and t.a[0].k == "meth" and t.a[0].a[1] == "get" and t.a[1] and t.a[1][0] is k:
        return strip(t.a[0].a[0])
    return None


def loaded_path(x):
    """json.load(open(path)) / json.loads(open(path).read()) -> path"""
    x = strip(x)
    if x.k == "call" and fname(x) == "json.load" and x.a[1]:
        return file_of(x.a[1][0])[0]
    if x.k == "call" and fname(x) == "json.loads" and x.a[1]:
        y = strip(x.a[1][0])
        if y.k == "call" and y.a[0].k == "meth" and y.a[0].a[1] in ("read", "read_text"):
            return file_of(y.a[0].a[0])[0]
    return None


def folder(p):
    p = strip(p)
    if p.k == "join" and len(p.a[0]) >= 2:
        return tuple(strip(x) for x in p.a[0][:-1])
    return None


def name_number(p):
    """join(dir, f"checkpoint-{n}.json") -> n"""
    p = strip(p)
    last = strip(p.a[0][-1]) if p.k == "join" else p
    if last.k == "elem" and strip(last.a[0]).k == "comp":
        last = strip(strip(last.a[0]).a[1])
    if last.k != "cat":
        return None
    ps = [strip(x) for x in last.a[0]]
    if len(ps) == 3 and ps[0] is const("checkpoint-") and ps[2] is const(".json"):
        return peel(ps[1])
    return None


def recorded(t, fld):
    """t is the recorded fld of the settings file -> its folder"""
    x = sub_key(t, fld)
    if x is None:
        return None
    p = loaded_path(x)
    if p is None or not ends_with(p, "config.json"):
        return None
    return folder(p)


def load(P, R):
    f = P.func(f"{DPR}._load_checkpoint_config")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    items = [p for p in f.params if p != "self"][:1]
    n = 0
    want = {"checkpoint_chunks_info": "chunks", "checkpoint_next_index": "done_till_index", "checkpoint_configs": "config"}
    seen = {}
    for e, c in flow.walk(seq):
        if e.kind != "setitem":
            continue
        a = root_attr(strip(e.base))
        v = strip(e.value)
        ks = [k for k in want.values() if sub_key(v, k) is not None]
        if a not in want or not mentions_call(v, "load", "loads"):
            continue
        n += 1
        key = want[a]
        side = "remote" if mentions_call(v, "download_directory", "download_file") else "local"
        seen.setdefault(side, set()).add(a)
        X = sub_key(v, key)
        R.ob("matching", f"{a} ({side})", X is not None if ks else None, f"taken from {show(v, 3)}", e.where)
        if X is None:
            continue
        p = loaded_path(X)
        if p is None:
            R.ob("matching", f"{a} ({side}): file", None, show(X, 5), e.where)
            continue
        num = name_number(p)
        i = peel(strip(e.idx))
        if num is None:
            R.ob("matching", f"{a} ({side}): worker", None, show(p, 5), e.where)
        else:
            it = tm.poly_items(num)
            rest = [m for m in it if not any(is_rank(y) for y in m)]
            same = num is i or (len(rest) == 1 and len(rest[0]) == 1 and same_worker(rest[0][0], i))
            same = same or same_worker(num, i)
            R.ob("matching", f"{a} ({side}): worker", same, f"worker {show(i, 3)} reads the file of {show(num, 3)}", e.where)
            if a == "checkpoint_chunks_info":
                R.ob("own-checkpoint", "DataProcessor._load_checkpoint_config", any(len(m) == 2 and any(is_rank(y) for y in m) for m in it),
                     f"the file is written under the rank over all nodes but read as {show(num, 3)}", e.where)
        d = folder(p)
        lits = set()
        for g in c.guards:
            lits |= set(tm.literals(strip(g)))
        def eq(fld, other):
            for l in lits:
                if l.k == "eq":
                    for x, y in ((l.a[0], l.a[1]), (l.a[1], l.a[0])):
                        dd = recorded(x, fld)
                        if dd is not None and other(strip(y)):
                            return True if d is None or dd == d else None
                        if loaded_path(x) is not None and strip(y).k == "dict":
                            z = dict_get(strip(y), fld)
                            if z is not None and other(strip(z)):
                                return True
            return False
        opaque = any(g.k == "phi" or (g.k == "call" and mentions_call(g, "load")) for g in lits)
        for fld, other in (("num_workers", lambda y: y.k == "attr" and y.a[1] == "num_workers"),
                           ("workers_user_items", lambda y: y.k == "param" and y.a[0] in items)):
            ok = eq(fld, other)
            R.ob("compared", f"{a} ({side}): {fld}", ok if ok or not opaque else None, "taken over without comparing; conditions: " + guards_str(c)[-200:], e.where)
    need(range(n), "recorded chunks taken over", 4)
    for side, s in seen.items():
        R.ob("matching", f"{side}: chunks and position together", {"checkpoint_chunks_info", "checkpoint_next_index"} <= s, str(sorted(s)), f.where)
        R.ob("same-config", f"{side}: configuration taken over", "checkpoint_configs" in s, "the recorded configuration is not looked at", f.where)


def same_worker(x, i):
    """both number the workers of this process: idx(range(n)) / elem(range(n))"""
    def base(t):
        t = peel(strip(t))
        if t.k in ("idx", "elem"):
            b = strip(t.a[0])
            if b.k == "comp":
                return base(b.a[1]) if t.k == "elem" else strip(b.a[2][0][0])
            return b
        return None
    return x is i or (base(x) is not None and base(x) is base(i))


def dumped(seq):
    for e, c in flow.walk(seq):
        if e.kind == "call" and fname_of(e) in ("json.dump",) and len(e.args) >= 2:
            yield e, c, strip(e.args[0]), file_of(e.args[1])[0]


def fname_of(e):
    return e.callee or e.name or ""


def written(P, R):
    f = P.func(f"{WR}.save_checkpoint")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"get_config"})
    ds = list(dumped(seq))
    need(ds, "checkpoint written")
    for e, c, d, p in ds:
        ch, cfg, n = dict_get(d, "chunks"), dict_get(d, "config"), dict_get(d, "done_till_index")
        R.ob("written", "checkpoint: chunks", ch is not None and root_attr(strip(ch)) == "_chunks_info" and strip(ch).k == "attr", show(ch, 4) if ch else "missing", e.where)
        R.ob("written", "checkpoint: config", cfg is not None and (strip(cfg).k == "call" and fname(strip(cfg)).endswith("get_config")), show(cfg, 4) if cfg else "missing", e.where)
        R.ob("written", "checkpoint: items held by the chunks", total_items(n) if n is not None else False, show(n, 6) if n else "missing", e.where)
        if p is not None:
            last = strip(strip(p).a[0][-1]) if strip(p).k == "join" else strip(p)
            parts = [strip(x) for x in last.a[0]] if last.k == "cat" else []
            ok = bool(parts) and parts[0] is const("checkpoint-") and len(parts) > 1 and mentions(parts[1], lambda x: (x.k == "attr" and x.a[1] in ("rank", "_rank")) or x.k == "const" and "GLOBAL_RANK" in str(x.a[1]))
            R.ob("written", "checkpoint: under the worker's number", ok, show(last, 4), e.where)
            r = strip(ev.ret)
            R.ob("written", "checkpoint: the file returned", any(strip(v) is strip(p) for g, v in galts(r)), show(r, 4), e.where)
    # the file is not overtaken: it is only skipped when nothing was closed since
    f = P.func(f"{DPR}._save_current_config")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    ds = list(dumped(seq))
    need(ds, "settings written", 2)
    for e, c, d, p in ds:
        nw, it = dict_get(d, "num_workers"), dict_get(d, "workers_user_items")
        R.ob("written", "settings: num_workers", nw is not None and strip(nw).k == "attr" and strip(nw).a[1] == "num_workers", show(d, 3), e.where)
        R.ob("written", "settings: workers_user_items", it is not None and strip(it).k == "param", show(d, 3), e.where)
        R.ob("written", "settings: file", p is not None and ends_with(p, "config.json"), show(p, 4) if p else "", e.where)
    ups = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "upload_file" and len(e.args) >= 2]
    if not ups and not any(e.kind == "call" and (e.name or "").startswith(("upload", "put", "copy")) for e, c in flow.walk(seq)):
        R.ob("written", "settings: uploaded file", False, "the settings aren't uploaded", f.where)
    else:
        need(ups, "settings uploaded")
    for e, c in ups:
        src = strip(e.args[0])
        R.ob("written", "settings: uploaded file", any(p is not None and strip(p) is src for _, _, _, p in ds) and ends_with(e.args[1], "config.json"), show(e.args[1], 4), e.where)


def total_items(n):
    n = peel(strip(n))
    if n.k == "call" and fname(n) == "sum" and n.a[1]:
        a = strip(n.a[1][0])
        if a.k == "comp" and len(a.a[2]) == 1 and a.a[2][0][1] is TRUE:
            x = sub_key(a.a[1], "chunk_size")
            return x is not None and x.k == "elem" and strip(a.a[2][0][0]).k == "attr" and strip(a.a[2][0][0]).a[1] == "_chunks_info"
        return None
    if n.k == "phi":
        return None
    if any(x.k == "call" and fname(x) == "len" for x in subterms(n)):
        return False
    return None if n.k == "call" else False


RUN_OPAQUE = {"_cleanup_cache", "_exit_on_error", "_load_checkpoint_config", "_save_current_config", "_cleanup_checkpoints", "_create_process_workers",
              "_map_items_to_workers_weighted", "_map_items_to_workers_sequentially", "_get_item_filesizes", "_done", "remap_items"}


def resume(P, R):
    f = P.func(f"{DPR}.run")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque=RUN_OPAQUE)
    calls = [(e, c) for e, c in flow.walk(seq) if e.kind == "call"]
    loads = [x for x in calls if x[0].name == "_load_checkpoint_config"]
    saves = [x for x in calls if x[0].name == "_save_current_config"]
    makes = [x for x in calls if x[0].name == "_create_process_workers"]
    for xs, w in ((loads, "loading of checkpoints"), (saves, "saving of settings"), (makes, "making of workers")):
        need(xs, w)
    full = strip(loads[0][0].args[0])
    for e, c in loads:
        R.ob("resume", "every item is compared", not mentions(strip(e.args[0]), lambda x: x.k == "slice"), show(e.args[0], 3), e.where)
    for e, c in saves:
        R.ob("resume", "every item is recorded", strip(e.args[0]) is full, show(e.args[0], 3), e.where)
    seen, bad = before(seq, lambda e: e.kind == "call" and e.name == "_load_checkpoint_config",
                       lambda e: e.kind == "call" and e.name == "_save_current_config")
    R.ob("resume", "settings are saved after the old ones were compared", not bad, "", f.where)
    # position
    sl = []
    for e, c in makes:
        for t in e.args:
            for x in subterms(strip(t)):
                if x.k == "sub" and strip(x.a[1]).k == "slice" and mentions_attr(x.a[1], "checkpoint_next_index"):
                    sl.append((x, e))
    if not sl:
        R.ob("resume", "items after the position", False if not any(mentions_attr(t, "checkpoint_next_index") for e, c in makes for t in e.args) else None,
             "workers are given their items from the start", makes[0][0].where)
    for x, e in {id(x): (x, e) for x, e in sl}.values():
        s = strip(x.a[1])
        lo, hi = strip(s.a[0]), strip(s.a[1])
        ok = lo.k == "sub" and root_attr(strip(lo.a[0])) == "checkpoint_next_index" and hi is NONE
        src = strip(x.a[0])
        if ok:
            i = peel(strip(lo.a[1]))
            b = strip(src.a[0]) if src.k == "elem" else (strip(src.a[0]) if src.k == "sub" else None)
            same = (src.k == "elem" and i.k == "idx" and strip(i.a[0]) is b) or (src.k == "sub" and peel(strip(src.a[1])) is i)
            R.ob("resume", "items after the position of the same worker", same if i.k in ("idx", "elem") or not same else None, show(x, 4), e.where)
            R.ob("resume", "positions count from the first item", b is full or None, show(b, 3) if b is not None else "", e.where)
        else:
            R.ob("resume", "items after the position", False if lo.k != "ite" else None, show(x, 4), e.where)
    # generators
    gens = [(e, c) for e, c in flow.walk(seq) if e.kind == "raise" and any(mentions_attr(g, "is_generator") for g in c.guards) and any(mentions_attr(g, "use_checkpoint") for g in c.guards)]
    R.must("refused", "generators", gens, "a generator recipe is run with checkpoints", f.where)
    # hand-over to the workers
    g = P.func(f"{DPR}._create_process_workers")
    R.unit(g.qual)
    seq, ev = evaluate(P, g)
    mk_ = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and (e.callee or "").endswith("DataWorkerProcess")]
    need(mk_, "worker made")
    init = P.cls("processing.data_processor.BaseWorker").find("__init__")
    for e, c in mk_:
        w = P.cls("processing.data_processor.DataWorkerProcess").find("__init__")
        a = passed(e, init)
        if a is None:
            R.ob("resume", "hand-over", None, "", e.where)
            continue
        items = a.get("items")
        base_i = None
        if items is not None:
            it = strip(items)
            base_i = mk("idx", it.a[0]) if it.k == "elem" else (strip(it.a[1]) if it.k == "sub" else None)
        for pname, attr in (("checkpoint_chunks_info", "checkpoint_chunks_info"), ("checkpoint_next_index", "checkpoint_next_index"), ("checkpoint_config", "checkpoint_configs")):
            v = a.get(pname)
            if v is None:
                R.ob("resume" if pname != "checkpoint_config" else "same-config", f"hand-over of {pname}", False if pname in init.params or pname != "checkpoint_config" else False, "not passed", e.where)
                continue
            ok = True
            for gd, x in galts(v):
                x = strip(x)
                if x is NONE:
                    continue
                ok = ok and x.k == "sub" and root_attr(strip(x.a[0])) == attr and (base_i is None or strip(x.a[1]) is strip(base_i))
            R.ob("resume", f"hand-over of {pname}", ok and any(strip(x) is not NONE for gd, x in galts(v)), show(v, 4), e.where)
        uc = a.get("use_checkpoint")
        R.ob("resume", "hand-over of use_checkpoint", uc is not None and mentions_attr(uc, "use_checkpoint"), "", e.where)
    for e, c in own_events(P, init):
        if e.kind == "store" and e.attr.startswith("checkpoint_"):
            R.ob("resume", f"BaseWorker keeps {e.attr}", strip(e.value).k == "param" and strip(e.value).a[0] == e.attr, show(e.value, 3), e.where)


def writer_state(P, R):
    f = P.func(f"{BW}._create_cache")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"get_config"})
    got = {}

    def step(st, e):
        if e.kind == "store" and e.attr in ("_chunks_info", "_chunk_index") and mentions_attr(e.base, "_writer"):
            got.setdefault(e.attr, []).append(e)
            return [st | {e.attr}]
        return [st]

    out = flow.Typestate(step).run(seq, [frozenset()])
    need(got.get("_chunks_info", []) + got.get("_chunk_index", []), "restored state of the writer")
    half = [s for s, _ in out["norm"] | out["ret"] if len(s) == 1]
    R.ob("resume", "chunks and numbering restored together", not half, str([sorted(x) for x in half]), f.where)
    for e in got.get("_chunks_info", []):
        R.ob("resume", "chunks of the checkpoint", strip(e.value).k == "attr" and strip(e.value).a[1] == "checkpoint_chunks_info", show(e.value, 4), e.where)
    for e in got.get("_chunk_index", []):
        v = strip(e.value)
        it = tm.poly_items(v)
        old = [m for m in it if len(m) == 1 and strip(m[0]).k == "attr" and strip(m[0]).a[1] == "_chunk_index"]
        # at least as many numbers are left out as there are chunks: one per item, or one per chunk
        new = [m for m in it if len(m) == 1 and (mentions_attr(m[0], "checkpoint_next_index") or
               (strip(m[0]).k == "call" and fname(strip(m[0])) == "len" and mentions_attr(m[0], "checkpoint_chunks_info", "_chunks_info")))]
        ok = bool(new) and all(it[m] >= 1 for m in new) and tm.lin_const(v) >= 0
        R.ob("resume", "new chunks numbered after the recorded ones", ok, show(v, 5), e.where)
        start = bool(old) or mentions_attr(v, "writer_starting_chunk_index")
        R.ob("resume", "numbering starts from the writer's own start", start, f"{show(v, 5)}: chunks appended to a dataset would take the names of existing ones", e.where)
    # configuration
    cmps = [(e, c) for e, c in flow.walk(seq) if e.kind == "raise" and any(
        l.k == "not" and strip(l.a[0]).k == "eq" and mentions_attr(l, "checkpoint_config", "_checkpoint_config") and mentions_call(l, "get_config")
        for g in c.guards for l in tm.literals(strip(g)))]
    R.must("same-config", "settings of the writer", cmps, "the recorded compression, chunk limits, encryption and item loader are not compared with those of this run", f.where)
    for e, c in cmps:
        extra = [l for g in c.guards for l in tm.literals(strip(g)) if not (mentions_attr(l, "use_checkpoint", "checkpoint_chunks_info", "checkpoint_next_index", "checkpoint_config", "_checkpoint_config", "data_recipe"))]
        R.ob("same-config", "compared always", not extra or None, guards_str(c), e.where)
    set_ = [(e, c) for e, c in flow.walk(seq) if e.kind == "store" and e.attr == "_checkpoint_config"]
    R.must("known-format", "the writer knows the recorded configuration", set_, "", f.where)
    for e, c in set_:
        R.ob("known-format", "the recorded configuration of the worker", strip(e.value).k == "attr" and strip(e.value).a[1] == "checkpoint_config", show(e.value, 4), e.where)
    # format
    g = P.func(f"{WR}.get_config")
    R.unit(g.qual)
    seq, ev = evaluate(P, g)
    for key in ("data_format", "data_spec"):
        v = value_of(ev.ret, key)
        if v is None:
            R.ob("known-format", f"get_config: {key}", None, show(ev.ret, 3), g.where)
            continue
        rec = [(gd, x) for gd, x in v if sub_key(x, key) is not None and mentions_attr(x, "_checkpoint_config")]
        R.ob("known-format", f"get_config: {key}", bool(rec), "a resumed worker that has nothing left to write records no format", g.where)
        for gd, x in rec:
            lits = set(tm.literals(strip(gd)))
            none = any(l.k == "is" and NONE in l.a and mentions_attr(l, "_data_format") for l in lits) or any(l.k == "not" and mentions_attr(l.a[0], "_data_format") and l.a[0].k == "attr" for l in lits)
            R.ob("known-format", f"get_config: {key} only while nothing was written", none, show(gd, 4), g.where)
    s = P.func(f"{WR}.serialize")
    R.unit(s.qual)
    seq, ev = evaluate(P, s, opaque={"_serialize", "_serialize_with_data_format"})

    stores = [(e, c) for e, c in flow.walk(seq) if e.kind == "store" and e.attr == "_data_format" and e.base.k == "self"]
    need(stores, "data format taken from the first item")
    rs = [(e, c) for e, c in flow.walk(seq) if e.kind == "raise" and any(mentions_attr(x, "_checkpoint_config") for x in c.guards)]
    fmt = [x for x in rs if any(mentions_key(g, "data_format") for g in x[1].guards)]
    R.must("same-config", "data format of new items", fmt, "items of another format than the recorded chunks are accepted", s.where)
    spec = [x for x in rs if any(mentions_key(g, "data_spec") for g in x[1].guards)]
    R.must("same-config", "structure of new items", spec, "items of another structure than the recorded chunks are accepted", s.where)


def value_of(t, key):
    """[(condition, value)] of a key of the dict returned"""
    out = []
    for g, v in galts(t):
        v = strip(v)
        x = look(v, key)
        if x is None:
            return None
        for g2, y in galts(x):
            out.append((tm.and_(g, g2) if hasattr(tm, "and_") else g2 if g is TRUE else g, strip(y)))
    return out


def look(v, key):
    k = const(key)
    for _ in range(40):
        if v.k in ("setitem", "upd"):
            if strip(v.a[1]) is k:
                return v.a[2]
            v = strip(v.a[0])
            continue
        return dict_get(v, key)
    return None


def queue_of(e):
    """self.to_upload_queues[i].put(x) -> i"""
    if e.kind == "call" and e.name == "put" and e.recv is not None and e.args and strip(e.args[0]) is not NONE:
        r = strip(e.recv)
        if r.k == "sub" and root_attr(strip(r.a[0])) == "to_upload_queues":
            return strip(r.a[1])
        if r.k == "elem" and root_attr(strip(r.a[0])) == "to_upload_queues":
            return r
    return None


def order(P, R):
    for q in (f"{BW}._handle_data_chunk_recipe", f"{BW}._handle_data_chunk_recipe_end"):
        f = P.func(q)
        R.unit(f.qual)
        seq, ev = evaluate(P, f)
        puts = [(e, c, queue_of(e)) for e, c in flow.walk(seq) if queue_of(e) is not None]
        need(puts, "files queued for upload")
        for e, c, i in puts:
            if any(l.k == "attr" and l.a[1] == "is_generator" for g in c.guards for l in tm.literals(strip(g))):
                continue  # checkpoints are refused for generators
            ok = True
            lits = [l for g in c.guards for l in tm.literals(strip(g))]
            if any(l.k == "not" and mentions_attr(l.a[0], "use_checkpoint") and strip(l.a[0]).k == "attr" for l in lits):
                continue
            for g, v in galts(i):
                gl = tm.literals(strip(g))
                if any(l.k == "not" and strip(l.a[0]).k == "attr" and strip(l.a[0]).a[1] == "use_checkpoint" for l in gl):
                    continue
                v = peel(strip(v))
                if not is_const(v):
                    ok = None if v.k in ("phi", "call") or (ok is None) else False
                    if mentions(v, lambda x: x.k == "op" and x.a[0] == "Mod"):
                        ok = False
                        if mentions_attr(v, "worker_index") and not mentions_attr(v, "_counter"):
                            ok = True
                        break
            R.ob("order", f"{f.name}: one uploader for {what(e)}", ok, f"goes to uploader {show(i, 4)}, so a checkpoint may be uploaded before the chunks it names", e.where)
        # after the chunks
        def is_ckpt(e):
            return queue_of(e) is not None and mentions_call(e.args[0], "save_checkpoint")

        bad = []

        def step(st, e):
            if is_ckpt(e):
                return [True]
            if st and queue_of(e) is not None and mentions_call(e.args[0], "_add_item", "done"):
                bad.append(e)
            return [st]

        flow.Typestate(step).run(seq, [False])
        ck = [e for e, c in flow.walk(seq) if is_ckpt(e)]
        if not ck:
            R.ob("order", f"{f.name}: checkpoint queued", False, "no checkpoint is uploaded", f.where)
        R.ob("order", f"{f.name}: checkpoint after its chunks", not bad, "a checkpoint is queued before the chunk it names", bad[0].where if bad else f.where)


def what(e):
    a = strip(e.args[0])
    if mentions_call(a, "save_checkpoint"):
        return "checkpoints"
    return "chunks"


def in_order(P, R):
    f = P.func(f"{BW}._start_downloaders")
    R.unit(f.qual)
    init = P.cls("processing.data_processor.BaseWorker").find("__init__")
    seq, ev = evaluate(P, f)
    ps = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name in ("Process", "Thread") or e.kind == "call" and (e.callee or "").split(".")[-1] in ("Process", "Thread")]
    ps = [(e, c) for e, c in ps if any(mentions_attr(a, "ready_to_process_queue") for a in list(e.args) + list(e.kw.values()))]
    need(ps, "downloaders made")
    vals = []
    for e, c in own_events(P, init):
        if e.kind == "store" and e.attr == "num_downloaders":
            under = [strip(l) for g in c.guards for l in tm.literals(strip(g))]
            if any(l.k == "not" and (mentions_attr(l.a[0], "use_checkpoint") or mentions_param(l.a[0], "use_checkpoint")) for l in under):
                continue
            vals.append(strip(e.value))
    need(vals, "number of downloaders")

    def single(t):
        """one when checkpoints are used"""
        ok = True
        for g, v in galts(strip(t)):
            lits = [strip(l) for l in tm.literals(strip(g))]
            if any(l.k == "not" and mentions_attr(l.a[0], "use_checkpoint") or l.k == "not" and mentions_param(l.a[0], "use_checkpoint") for l in lits):
                continue
            v = peel(strip(v))
            if v is ONE:
                continue
            if v.k == "attr" and v.a[1] == "num_downloaders" and t not in vals and vals:
                ok = ok and all(single(x) for x in vals)
                continue
            ok = False
        return ok

    for e, c in ps:
        loops = [l for l in c.loops if l.iter is not None]
        ok = True
        for l in loops:
            it = strip(l.iter)
            n = it.a[1][-1] if it.k == "call" and fname(it) == "range" and it.a[1] else None
            ok = ok and (single(n) if n is not None else None)
        R.ob("in-order", "downloaders feeding one worker", ok, "several downloaders hand items over in the order they finish, but a checkpoint counts the first items as done", e.where)


def counted(P, R):
    f = P.func(f"{BW}._handle_data_chunk_recipe")
    seq, ev = evaluate(P, f, opaque={"_try_upload"})

    def step(st, e):
        if e.kind == "call" and e.name == "prepare_item":
            return ["got"]
        if e.kind == "call" and e.name in ("_add_item",):
            return ["added"]
        return [st]

    def assume(st, cond):
        for l in tm.literals(strip(cond)):
            if l.k == "attr" and l.a[1] == "is_generator":
                return None
        return st

    out = flow.Typestate(step, assume).run(seq, ["none"])
    st = {s for s, _ in out["ret"] | out["norm"]}
    R.ob("inputs-counted", "BaseWorker._handle_data_chunk_recipe", "got" not in st,
         "an input for which the function returns None adds no sample, and the recorded position counts samples", f.where)


def cleaned(P, R):
    f = P.func(f"{DPR}.run")
    seq, ev = evaluate(P, f, opaque=RUN_OPAQUE)

    def is_clean(e):
        return e.kind == "call" and e.name == "_cleanup_checkpoints"

    evs = [(e, c) for e, c in flow.walk(seq) if is_clean(e)]
    need(evs, "removal of checkpoints")

    def step(st, e):
        used, clean, done = st
        if is_clean(e):
            if used is not False and not done:
                bad.append((e, "checkpoints are removed before the run that uses them has finished"))
            return [(used, True, done)]
        if e.kind == "call" and e.name == "_create_process_workers":
            if used is False and not clean:
                late.append(e)
        if e.kind == "call" and e.name == "_done":
            return [(used, clean, True)]
        return [st]

    def truth(t, used):
        t = strip(t)
        if t.k == "not":
            v = truth(t.a[0], used)
            return None if v is None else not v
        if t.k in ("and", "or"):
            vs = [truth(x, used) for x in t.a[0]]
            stop = t.k == "or"
            if stop in vs:
                return stop
            return None if None in vs else not stop
        if t.k == "attr" and t.a[1] == "use_checkpoint":
            return used
        if t.k == "isinst" and strip(t.a[0]).k == "param":
            return True  # a recipe that writes chunks
        return None

    def assume(st, cond):
        return None if truth(cond, st[0]) is False else st

    bad, late = [], []
    out = flow.Typestate(step, assume).run(seq, [(True, False, False), (False, False, False)])
    R.ob("cleaned", "only by a finished run", not bad, bad[0][1] if bad else "", bad[0][0].where if bad else f.where)
    R.ob("cleaned", "before a run without checkpoints", not late, "a run without checkpoints leaves those of an earlier run, which a later run would take for its own", late[0].where if late else f.where)
    left = [s for s, _ in out["norm"] | out["ret"] if s[0] is True and s[2] and not s[1]]
    R.ob("cleaned", "after a finished run", not left, "the checkpoints of a finished run stay", f.where)
    g = P.func(f"{DPR}._cleanup_checkpoints")
    R.unit(g.qual)
    seq, ev = evaluate(P, g)
    n = 0
    for e, c in flow.walk(seq):
        p = removed_path(e)
        if p is None and e.kind == "call" and e.name == "delete_file_or_directory" and e.args:
            p = e.args[0]
        if p is None:
            continue
        n += 1
        p = strip(p)
        ok = ends_with(p, ".checkpoints", ".checkpoints/") and mentions_attr(p, "output_dir")
        R.ob("cleaned", f"what is removed: {e.name or e.callee}", ok, show(p, 4), e.where)
    need(range(n), "removals of checkpoints", 2)
