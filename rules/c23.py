"""C23: datasets reach other processes without live handles."""
from .common import *

S = "streaming."
LIVE_EXT = ("threading.Thread", "threading.Lock", "threading.RLock", "threading.Event", "threading.Condition", "threading.Semaphore", "threading.Timer", "queue.Queue", "queue.SimpleQueue",
            "queue.LifoQueue", "queue.PriorityQueue", "io.open", "io.FileIO", "os.fdopen", "numpy.memmap", "mmap.mmap", "memoryview", "open", "pyarrow.parquet.ParquetFile",
            "pyarrow.memory_map", "subprocess.Popen", "filelock.FileLock", "google.cloud.storage.Client", "azure.storage.blob.BlobServiceClient", "socket.socket", "sqlite3.connect",
            "concurrent.futures.ThreadPoolExecutor", "boto3.Session", "boto3.client", "multiprocessing.Pool")
LIVE_METHODS = {"client": ("session", "Session"), "start_new_thread": ()}
EMPTY_CALLS = ("dict", "list", "set", "defaultdict", "collections.defaultdict", "OrderedDict", "collections.OrderedDict", "deque", "collections.deque")
NOT_SENT = ("utilities.broadcast", "streaming.dataloader", "streaming.fs_provider", "processing.", "debugger", "utilities._pytree", "utilities.breakpoint")


def check(P, R):
    R.rule("dropped", "what can't be shared between processes is taken out of the state sent to another one, in every class that inherits it")
    R.rule("own-copy", "the state that is sent is a copy: sending doesn't disturb the sender")
    R.rule("rebuilt", "what was taken out is made again before it is used")
    R.rule("requested", "a reader that was sent asks for the chunk it reads")
    R.rule("forked", "a forked process opens chunks itself and starts its own prefetching thread")
    R.rule("anew", "iterating a dataset sets its reader up anew")
    R.part(P, dropped, rebuilt, forked, anew)


# ------------------------------------------------------------------ live attributes
def is_thread_class(c):
    return any((b.name if hasattr(b, "name") else str(b)).split(".")[-1] == "Thread" for b in c.mro()) or any("Thread" == (getattr(x, "id", None) or getattr(x, "attr", None)) for k in c.mro() if hasattr(k, "node") for x in k.node.bases)


def live(P, v, known=()):
    """does the value hold an operating-system handle, a thread or a lock of this process?  returns what it is"""
    v = strip(v)
    if v.k == "ite":
        return live(P, v.a[1], known) or live(P, v.a[2], known)
    if v.k in ("call", "new"):
        n = fname(v) if v.k == "call" else str(v.a[0].a[0] if hasattr(v.a[0], "a") else v.a[0])
        short = n.split(".")[-1]
        for x in LIVE_EXT:
            if n == x or (("." in x) and short == x.split(".")[-1] and short[0].isupper()):
                return n
            if short == x.split(".")[-1] and short in ("memmap", "open", "memoryview", "memory_map", "fdopen"):
                if v.k == "call" and v.a[0].k == "meth":
                    continue
                return n
        if v.k == "call" and v.a[0].k == "meth" and short == "client" and mentions(v, lambda y: y.k in ("call", "new") and "Session" in show(y, 2)):
            return "a client of the storage service"
        for c in P.classes.values():
            if c.name == short and is_thread_class(c):
                return f"{short} (a thread)"
    if v.k == "attr" and v.a[1] in known:
        return f"{v.a[1]} of another object"
    if v.k == "comp" and v.a[0] == "gen":
        return "a generator"
    if v.k in ("dict", "list", "tuple"):
        for x in v.a[0]:
            for y in (x if isinstance(x, tuple) else (x,)):
                if hasattr(y, "k") and y.k in ("call", "new", "ite"):
                    r = live(P, y, known)
                    if r:
                        return r
    return None


def live_attributes(P):
    """{(class qual, attribute): (what, where)}"""
    own = {}
    for q, c in P.classes.items():
        own[q] = {x.attr for m in c.methods.values() for x in P.nodes(m) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self"}
    out = {}
    known = ()
    for _ in range(2):
        for q, f in sorted(P.funcs.items()):
            if any(s in q for s in NOT_SENT):
                continue
            for e, c in own_events(P, f):
                if e.kind == "store" and e.value is not None:
                    base, attr = e.base, e.attr
                elif e.kind == "setitem" and strip(e.base).k == "attr":
                    base, attr = strip(e.base).a[0], strip(e.base).a[1]
                else:
                    continue
                if c.inside or getattr(e, "func", f) is not f and not getattr(e.func, "is_helper", False):
                    continue
                if e.value is None:
                    continue
                w = live(P, e.value, known)
                if not w:
                    continue
                b = strip(base)
                if (b.k == "self" or b.k == "param" and b.a[0] == "self") and f.cls is not None:
                    owners = [f.cls]
                elif b.k == "mod":
                    continue
                else:
                    owners = [P.classes[k] for k in own if attr in own[k] and not any(x in k for x in NOT_SENT) and not is_thread_class(P.classes[k])]
                    owners = [o for o in owners if not any(o is not p and p in o.mro() for p in owners)]
                for o in owners:
                    if not is_thread_class(o):
                        out.setdefault((o.qual, attr), (w, e.where))
        known = tuple(sorted({a for _, a in out} | {"_force_download_queue", "_to_download_queue", "_to_delete_queue"}))
    return out


def getstate(P, c):
    m = c.find("__getstate__")
    if m is not None:
        return m
    return c.find("__reduce__") or c.find("__reduce_ex__")


def dead(P, v):
    v = strip(v)
    if is_const(v) or v is NONE:
        return True
    if v.k in ("dict", "list", "tuple", "set"):
        return not v.a[0] if v.a else True
    if v.k == "call" and fname(v) in EMPTY_CALLS:
        return True
    return False


def state_of(P, c):
    """({key: value} set in the state that is sent, removed keys, problems) on every path; None when the method isn't understood"""
    m = c.find("__getstate__")
    if m is None:
        return None
    seq, ev = evaluate(P, m, self_cls=c)
    ret = strip(ev.ret) if ev.ret is not None else NONE
    vals, gone = {}, set()
    only = None
    def put(x):
        """what the term itself says about keys, in the order it applies them"""
        x = strip(x)
        if x.k == "dmerge":
            put(x.a[0])
            put(x.a[1])
        elif x.k == "mut":
            put(x.a[0])
            if x.a[1] == "update":
                for y in x.a[2]:
                    put(y)
        elif x.k == "call" and fname(x) == "dict" and x.a[0].k != "meth":
            for y in x.a[1]:
                put(y)
            for k, v in x.a[2]:
                vals[k] = v
        elif x.k == "dict":
            for kv in x.a[0]:
                k, v = kv if isinstance(kv, tuple) and len(kv) == 2 else (None, kv)
                if k is not None and hasattr(k, "k") and k.k == "const":
                    vals[eval_str(k)] = v
                    gone.discard(eval_str(k))
                elif hasattr(v, "k"):
                    put(v)
        elif x.k == "comp" and x.a[0] == "dict":
            elt = strip(x.a[1])
            for it, cond in [(y[0], y[1]) for y in x.a[2]]:
                it = strip(it)
                if it.k in ("tuple", "list") and elt.k == "tuple" and all(strip(y).k == "const" for y in it.a[0]):
                    for y in it.a[0]:
                        vals[eval_str(strip(y))] = elt.a[0][1]
                for l in literals(cond):
                    l = strip(l)
                    if l.k == "not" and l.a[0].k in ("in", "eq"):
                        for y in subterms(l.a[0]):
                            if y.k == "const" and y.a[0] == "str":
                                gone.add(eval_str(y))

    put(ret)
    paths = count_paths(seq, lambda e: key_of(e))
    must = None
    for out in ("ret", "norm"):
        for p in paths.get(out, ()):
            ks = {k for k, n in p}
            must = ks if must is None else must & ks
    must = must or set()
    for e, cx in flow.walk(seq):
        k = key_of(e)
        if k is None or k not in must and not any(mentions(g, lambda y: y.k == "const" and y.a[0] == "str" and eval_str(y) == k) for g in cx.guards):
            continue
        if e.kind == "setitem":
            vals[k] = e.value
            gone.discard(k)
        else:
            gone.add(k)
    own = [e for e, cx in flow.walk(seq) if key_of(e) and is_own_dict(e.base if e.kind == "setitem" else e.recv if e.recv is not None else getattr(e, "base", None))]
    stores = [e for e, cx in flow.walk(seq) if e.kind == "store" and (strip(e.base).k == "self" or strip(e.base).k == "param" and strip(e.base).a[0] == "self")]
    return vals, gone, ret, own, stores


def key_of(e):
    if e.kind in ("setitem", "del", "delitem") and getattr(e, "idx", None) is not None and strip(e.idx).k == "const":
        return eval_str(strip(e.idx))
    if e.kind == "call" and e.name == "pop" and e.args and strip(e.args[0]).k == "const" and strip(e.args[0]).a[0] == "str":
        return eval_str(strip(e.args[0]))
    return None


def is_own_dict(t):
    if t is None:
        return False
    t = strip(t)
    return t.k == "attr" and t.a[1] == "__dict__" or t.k == "call" and fname(t) == "vars"


def sent(c):
    """every class that has the attribute: the one that sets it and those that inherit from it"""
    return [c] + [x for x in c.all_subclasses() if x is not c]


_ST = {}


def state(P, c):
    k = (id(P), c.qual)
    if k not in _ST:
        try:
            _ST[k] = state_of(P, c)
        except AnalysisBroken:
            _ST[k] = None
    return _ST[k]


def dropped(P, R):
    attrs = live_attributes(P)
    n = 0
    seen = set()
    for (q, attr), (w, where) in sorted(attrs.items()):
        for c in sent(P.classes[q] if q in P.classes else P.classes["litdata." + q]):
            if (c.qual, attr) in seen:
                continue
            seen.add((c.qual, attr))
            n += 1
            what = f"{c.name}.{attr}"
            m = c.find("__getstate__")
            if m is None:
                R.ob("dropped", what, None if c.find("__reduce__") is not None else False, f"{w} would be sent along", where)
                continue
            R.unit(m.qual)
            st = state(P, c)
            if st is None:
                R.ob("dropped", what, None, "__getstate__ isn't understood", where)
                continue
            vals, gone, ret, own, stores = st
            if attr in vals:
                d = dead(P, vals[attr])
                R.ob("dropped", what, True if d else False if live(P, vals[attr]) or root_attr(vals[attr]) == attr else None, f"{w} becomes {show(vals[attr], 2)}", m.where if hasattr(m, "where") else where)
            elif attr in gone:
                R.ob("dropped", what, True, f"{w} is left out", where)
            else:
                keeps = mentions(ret, lambda y: y.k == "attr" and y.a[1] == "__dict__") or ret.k in ("call", "attr")
                R.ob("dropped", what, False if keeps else None, f"{w} stays in {show(ret, 3)}", where)
    R.ob("dropped", "attributes with live handles", True if n >= 6 else None, f"{n} found")
    for q, c in sorted(P.classes.items()):
        m = c.methods.get("__getstate__")
        if m is None:
            continue
        st = state(P, c)
        if st is None:
            continue
        bad = [e for e in st[3]] + [e for e in st[4] if e.attr in {a for _, a in attrs}]
        R.ob("own-copy", c.name, not bad, f"{[show(e.base, 2) for e in bad]}" if bad else "a copy of the attributes", m.qual)


# ------------------------------------------------------------------ rebuilt on first use
def received(P, c):
    """atom for conditions on attributes as they are after sending"""
    st = state(P, c)
    vals, gone = (st[0], st[1]) if st is not None else ({}, set())
    v = {k: strip(x) for k, x in vals.items()}

    def atom(x):
        for k, val in v.items():
            empty = val.k in ("dict", "list", "tuple", "set") or val.k == "call"
            if x.k == "is" and NONE in x.a:
                o = [y for y in x.a if y is not NONE]
                if o and is_attr(strip(o[0]), k):
                    return val is NONE
            if x.k == "attr" and x.a[1] == k:
                if empty or val is NONE:
                    return False
                if is_const(val):
                    return bool(val.a[1])
            if x.k == "in" and is_attr(strip(x.a[1]), k) and empty:
                return False
            if x.k == "eq" and any(is_attr(strip(y), k) for y in x.a):
                o = [y for y in x.a if not is_attr(strip(y), k)]
                if o and val is NONE and (o[0].k in ("param", "attr", "call", "sub")):
                    return False
            if x.k == "lt" or x.k == "le":
                continue
        return None
    return atom


def first_use(P, R, c, m, attr, makes, uses, what, atom=None, rule="rebuilt", opaque=()):
    """on every path of m, as received, `makes` comes before `uses`"""
    R.unit(m.qual)
    seq, ev = evaluate(P, m, self_cls=c, opaque=set(opaque))
    at = atom or received(P, c)
    bad, used = [], [0]

    def step(st, e):
        if makes(e):
            return ["made"]
        if st == "sent" and uses(e):
            bad.append(e)
        if uses(e):
            used[0] += 1
        return [st]

    def assume(st, cond):
        if st == "made":
            return st
        return None if excluded(cond, at) else st

    flow.Typestate(step, assume).run(seq, ["sent"])
    return bad, used[0]


def rebuilt(P, R):
    # the chunk a pytree loader has open
    c = P.cls(S + "item_loader.PyTreeLoader")
    m = c.find("load_item_from_chunk")
    bad, used = first_use(P, R, c, m, "_open_handle", lambda e: e.kind == "store" and e.attr == "_open_handle" and e.value is not NONE,
                          lambda e: reads_handle(e), "handle", opaque=("deserialize", "mds_deserialize", "force_download"))
    R.ob("rebuilt", "PyTreeLoader handle", not bad if used or bad else None, "the chunk is opened before it is read", bad[0].where if bad else m.qual)
    # memory maps
    c = P.cls(S + "item_loader.TokensLoader")
    m = c.find("load_item_from_chunk")
    bad, used = first_use(P, R, c, m, "_buffers", lambda e: e.kind == "setitem" and root_attr(e.base) == "_buffers" or e.kind == "setitem" and root_attr(e.base) == "_mmaps",
                          lambda e: e.kind == "call" and e.name in ("frombuffer",), "memory map", opaque=("force_download",))
    R.ob("rebuilt", "TokensLoader memory map", not bad if used or bad else None, "the chunk is mapped before it is read", bad[0].where if bad else m.qual)
    # parquet files
    c = P.cls(S + "item_loader.ParquetLoader")
    for name in ("_get_item_with_low_memory", "_get_item"):
        m = c.find(name)
        if m is None:
            continue
        bad, used = first_use(P, R, c, m, "_df", lambda e: e.kind == "setitem" and root_attr(e.base) == "_df",
                              lambda e: e.kind == "call" and e.name in ("read_row_group", "row") and e.recv is not None and mentions(e.recv, lambda y: y.k == "attr" and y.a[1] in ("_df",)), name)
        R.ob("rebuilt", f"ParquetLoader {name}", not bad if used or bad else None, "the file is opened before it is read", bad[0].where if bad else m.qual)
    # the client of the storage service
    c = P.classes.get("litdata.streaming.client.S3Client")
    if c is not None:
        m = c.find("client")
        bad, used = first_use(P, R, c, m, "_client", lambda e: e.kind == "store" and e.attr == "_client" and e.value is not NONE or e.kind == "call" and e.name == "_create_client",
                              lambda e: e.kind == "return", "client")
        R.ob("rebuilt", "S3Client client", not bad if used or bad else None, "a client is created before it is returned", bad[0].where if bad else m.qual)
    # the prefetching thread, and the request for the chunk
    c = P.cls(S + "reader.BinaryReader")
    m = c.find("read")
    base = received(P, c)
    opq = ("load_item_from_chunk", "close", "_decrement_local_lock", "delete", "stop", "download", "_try_load_config")

    def remote(x):
        if x.k == "attr" and x.a[1] in ("_remote_dir", "_compressor", "_config"):
            return True
        if x.k == "is" and NONE in x.a and any(is_attr(strip(y), n) for y in x.a for n in ("_config",)):
            return False
        if x.k == "attr" and x.a[1] == "chunk_indexes":
            return False
        if x.k in ("isinst", "call"):
            return None
        return base(x)

    thread = lambda e: e.kind == "store" and e.attr == "_prepare_thread" and e.value is not NONE
    reads = lambda e: e.kind == "call" and e.name == "load_item_from_chunk"
    bad, used = first_use(P, R, c, m, "_prepare_thread", thread, reads, "thread", atom=remote, opaque=opq)
    R.ob("rebuilt", "BinaryReader thread", not bad if used or bad else None, "the thread is started before a chunk is waited for", bad[0].where if bad else m.qual)
    requests(P, R, c, m, remote, opq, "requested", "BinaryReader sent")


def excluded(cond, at):
    """the scenario rules the branch out"""
    def more(x):
        v = at(x)
        if v is not None:
            return v
        if x.k in ("is", "eq"):
            a, b = map(strip, x.a)
            if a is b:
                return True
            if NONE in (a, b):
                o = b if a is NONE else a
                if o.k == "new" or o.k == "attr" and x.k == "eq" or is_const(o):
                    return False
        if x.k == "new":
            return True
        return None
    return truth3(spec(cond, more), more) is False


def requests(P, R, c, m, atom, opq, rule, what):
    seq, ev = evaluate(P, m, self_cls=c, opaque=set(opq))
    bad, n = [], [0]

    def step(st, e):
        if e.kind == "call" and e.name == "download" and e.recv is not None:
            return ["asked"]
        if e.kind == "call" and e.name == "load_item_from_chunk":
            n[0] += 1
            if st == "new":
                bad.append(e)
        return [st]

    flow.Typestate(step, lambda st, cond: None if excluded(cond, atom) else st).run(seq, ["new"])
    R.ob(rule, what, not bad if n[0] else None, "the chunk is requested from the thread before it is waited for", bad[0].where if bad else m.qual)


def reads_handle(e):
    """a read at the position of the handle the loader keeps open"""
    if e.kind != "call" or e.name not in ("seek", "read", "readinto", "_load_data"):
        return False
    t = e.recv if e.name != "_load_data" else (e.args[0] if e.args else None)
    return t is not None and any(x.k == "attr" and x.a[1] == "_open_handle" for x in tm.alts(strip(t)))


# ------------------------------------------------------------------ fork
def forked(P, R):
    pid = lambda y: y.k == "call" and fname(y) in ("os.getpid", "getpid")

    def other(x):
        """the process isn't the one that remembered its number"""
        if x.k == "eq" and any(pid(strip(y)) for y in x.a):
            return False
        if x.k == "in" and pid(strip(x.a[0])):
            return False
        return None

    hooks = any(isinstance(x, ast.Attribute) and x.attr == "register_at_fork" for f in P.modules.values() for x in ast.walk(f.tree))
    c = P.cls(S + "item_loader.PyTreeLoader")
    m = c.find("load_item_from_chunk")
    opq = ("deserialize", "mds_deserialize", "force_download")
    opens = lambda e: e.kind == "store" and e.attr == "_open_handle" and e.value is not NONE
    bad, used = first_use(P, R, c, m, "_open_handle", opens, reads_handle, "handle", atom=other, opaque=opq)
    R.ob("forked", "PyTreeLoader handle", (not bad) or (None if hooks else False), "a forked process opens the chunk itself before reading at its position", bad[0].where if bad else m.qual)
    remembers(P, R, c, m, opens, opq, pid, "PyTreeLoader handle")
    c = P.cls(S + "reader.BinaryReader")
    m = c.find("read")
    opq = ("load_item_from_chunk", "close", "_decrement_local_lock", "delete", "stop", "download", "_try_load_config")

    def forked_reader(x):
        if x.k == "attr" and x.a[1] in ("_remote_dir", "_compressor", "_config"):
            return True
        if x.k == "is" and NONE in x.a and any(is_attr(strip(y), n) for y in x.a for n in ("_config",)):
            return False
        if x.k == "attr" and x.a[1] == "chunk_indexes":
            return False
        if x.k == "is" and NONE in x.a and any(y.k == "attr" and y.a[1] == "_prepare_thread" and not y.a[2] for y in x.a):
            return False
        if x.k == "call" and x.a[0].k == "meth" and fname(x).split(".")[-1] == "is_alive":
            return False
        return other(x)

    starts = lambda e: e.kind == "store" and e.attr == "_prepare_thread" and e.value is not NONE
    bad, used = first_use(P, R, c, m, "_prepare_thread", starts, lambda e: e.kind == "call" and e.name == "load_item_from_chunk", "thread", atom=forked_reader, opaque=opq)
    R.ob("forked", "BinaryReader thread", (not bad) or (None if hooks else False), "a forked process starts its own thread before it waits for a chunk", bad[0].where if bad else m.qual)
    remembers(P, R, c, m, starts, opq, pid, "BinaryReader thread")
    requests(P, R, c, m, forked_reader, opq, "requested", "BinaryReader forked")


def remembers(P, R, c, m, makes, opq, pid, what):
    """the number of the process is remembered wherever the handle is made, if it is compared"""
    seq, ev = evaluate(P, m, self_cls=c, opaque=set(opq))
    names = set()
    for e, cx in flow.walk(seq):
        for g in cx.guards:
            for y in subterms(strip(g)):
                if y.k == "eq" and any(pid(strip(z)) for z in y.a):
                    names |= {z.a[1] for z in map(strip, y.a) if z.k == "attr"}
    for n in names:
        out = flow.Typestate(lambda st, e: [(True, st[1])] if makes(e) else [(st[0], True)] if e.kind == "store" and e.attr == n and pid(strip(e.value)) else [st]).run(seq, [(False, False)])
        bad = [s for k in ("norm", "ret") for s, _ in out.get(k, ()) if s == (True, False)]
        R.ob("forked", f"{what} owner", not bad, f"{n} is set where it is made", m.qual)


# ------------------------------------------------------------------ iteration
def anew(P, R):
    c = P.cls(S + "dataset.StreamingDataset")
    m = c.find("__iter__")
    R.unit(m.qual)
    seq, ev = evaluate(P, m, self_cls=c, opaque={"_create_cache", "_create_shuffler", "_resume", "_validate_state_dict"})
    fresh = lambda e: "n" if e.kind == "store" and e.attr == "cache" and mentions(e.value, lambda y: y.k in ("call", "new") and ("_create_cache" in show(y, 2) or "Cache" in show(y, 2))) and not mentions(e.value, lambda y: y.k == "attr" and y.a[1] == "cache") else None
    paths = count_paths(seq, fresh)
    bad = [p for k in ("norm", "ret") for p in paths.get(k, ()) if dict(p).get("n", 0) == 0]
    R.ob("anew", "StreamingDataset.__iter__", not bad, "a new cache is made on every path", m.qual)
    m = c.find("_create_cache")
    if m is not None:
        R.unit(m.qual)
        seq, ev = evaluate(P, m, self_cls=c, policy=lambda *a: False)
        r = strip(ev.ret)
        made = all(x.k == "new" or x.k == "call" and fname(x).split(".")[-1] == "Cache" for x in tm.alts(r))
        R.ob("anew", "StreamingDataset._create_cache", True if made else False if mentions(r, lambda y: y.k == "attr" and y.a[1] in ("cache", "_cache")) else None, show(r, 2))
