"""C20: only files the run created or was told to remove are deleted."""
from .common import *

DP = "processing.data_processor."
CACHE_ATTRS = ("_cache_dir", "cache_dir", "cache_path", "cache_data_dir", "cache_chunks_dir", "_profile_dir", "profile_dir")
CACHE_CALLS = ("_get_cache_dir", "_get_cache_data_dir", "_get_default_cache", "default_cache_dir")
FOREIGN = ("_remote_dir", "remote_dir", "input_dir", "_input_dir", "remote_input_dir", "remote_filepath", "remote_chunkpath")


def check(P, R):
    R.rule("site", "every local deletion is of a file of the cache, a chunk of the cache, a lock or temporary file, or part of the output location")
    R.rule("subdirectory", "a cache directory given by the user is never removed itself, only what was made in it")
    R.rule("same-chunk", "the item loader is told to delete the file of the chunk to be deleted, by its name in the cache")
    R.rule("local-kept", "chunks are removed from a cache filled from elsewhere or by decompression only, and the decompressed file is the one removed")
    R.rule("mapped", "the copy in the cache is removed, not the input file it was made of")
    R.rule("queued", "only inputs that were copied, and files that were uploaded, are handed to the remover")
    R.rule("needed", "a copy is removed when no other input is made of it")
    R.rule("asked", "no remover runs unless cached files are to be deleted")
    R.rule("inside", "clearing a remote location removes an object inside it and none that only starts with its name")
    R.rule("whole", "clearing or fetching a remote location handles every object in it, however many")
    R.rule("checkpoints-only", "after a run only its checkpoints are removed from the output location")
    R.part(P, sites, loaders, local, remover, queued, asked, providers, cleanup)


# ------------------------------------------------------------------ where a path comes from
def param_sources(P, f, name):
    """(function, argument term) for every call of f in the package"""
    out = []
    for q, g in sorted(P.funcs.items()):
        for e, c in own_events(P, g):
            if e.kind != "call" or e.name != f.name and not (f.name == "__init__"):
                continue
            t = target_of(P, e)
            if t is None:
                # a method of an object of unknown class
                if f.cls is None or e.recv is None or e.callee:
                    continue
                ps = [p for p in f.params if p != "self"]
                if len(e.args) + len(list(e.kw or {})) > len(ps) or strip(e.recv).k == "super":
                    continue
                t = f
            if t is not f and not (t.name == f.name and t.cls is not None and f.cls is not None and f.cls in t.cls.all_subclasses() + t.cls.mro()):
                continue
            a = passed(e, f)
            if a is None or name not in a:
                continue
            out.append((g, a[name]))
    return out


def origin(P, f, t, depth=0, seen=()):
    """classes of a path: cache | cache-root | chunk | temp | lock | output | foreign | None (not understood)"""
    t = strip(t)
    if t.k in ("ite",):
        out = set()
        for _, v in galts(t):
            out |= origin(P, f, v, depth, seen)
        return out
    if t.k == "phi":
        return {None}
    if t.k in ("cat", "poly"):
        parts = list(t.a[0]) if t.k == "cat" else [x for x in tm.children(t) if isinstance(x, T)]
        if t.k == "poly":
            parts.sort(key=lambda x: strip(x).k in ("elem", "const"))
        last = strip(parts[-1])
        tails = [last] if last.k == "const" else (list(strip(last.a[0]).a[0]) if last.k == "elem" and strip(last.a[0]).k in ("list", "tuple") else [])
        if tails and all(x.k == "const" and str(eval_str(x)).endswith((".lock", ".cnt", ".tmp", ".tmb")) for x in tails):
            return {"lock"}
        r = origin(P, f, parts[0], depth, seen)
        return {"cache" if x in ("cache-root", "own-root") else x for x in r}
    if t.k == "join":
        parts = list(t.a[0])
        r = origin(P, f, parts[0], depth, seen)
        return {"cache" if x in ("cache-root", "own-root") else x for x in r}
    if t.k == "elem":
        src = strip(t.a[0])
        while src.k == "call" and src.a[0].k != "meth" and fname(src).split(".")[-1] in ("sorted", "list", "set", "reversed") and src.a[1]:
            src = strip(src.a[1][0])
        if src.k == "call" and src.a[0].k != "meth" and fname(src).split(".")[-1] in ("glob", "scandir") and src.a[1]:
            r = origin(P, f, src.a[1][0], depth, seen)
            return {"cache" if x in ("cache-root", "own-root") else x for x in r}
        if src.k == "comp":
            return origin(P, f, src.a[1], depth, seen)
        return {None}
    if t.k == "sub" and strip(t.a[1]).k == "const" and str(strip(t.a[1]).a[1]) == "0" and strip(t.a[0]).k == "sub" and mentions_attr(strip(t.a[0]).a[0], "_config", "config"):
        return {"chunk"}
    if t.k == "attr":
        if t.a[1] in CACHE_ATTRS:
            return {"cache-root"}
        if t.a[1] in ("path", "url") and (mentions_attr(t.a[0], "output_dir", "_output_dir") or mentions_param(t.a[0], "output_dir")):
            return {"output"}
        if t.a[1] in ("path", "url") and (mentions_attr(t.a[0], "input_dir", "_input_dir") or mentions_param(t.a[0], "input_dir")):
            return {"foreign"}
        if t.a[1] in FOREIGN:
            return {"foreign"}
        if t.a[1] == "name" and mentions_call(t, "NamedTemporaryFile", "mkstemp", "mkdtemp", "TemporaryDirectory"):
            return {"temp"}
        return {None}
    if t.k == "call":
        if t.a[0].k == "meth":
            if t.a[0].a[1] == "replace" and len(t.a[1]) == 2:
                b = strip(t.a[1][1])
                r = origin(P, f, t.a[0].a[0], depth, seen)
                if r & {"cache", "cache-root", "own-root", "chunk", "temp"} and not r & {"foreign", None}:
                    return r
                ob = origin(P, f, b, depth, seen)
                if ob & {"cache-root", "cache"}:
                    return {"mapped"}
                return r
            return {None}
        n = fname(t).split(".")[-1]
        if n in CACHE_CALLS:
            return {"own-root"}
        if n in ("mkdtemp", "mkstemp"):
            return {"temp"}
        if n in ("str", "abspath", "realpath", "normpath", "Path", "expanduser", "fspath") and t.a[1]:
            return origin(P, f, t.a[1][0], depth, seen)
        return {None}
    if t.k == "entered" or mentions_call(t, "NamedTemporaryFile", "TemporaryDirectory", "mkdtemp", "mkstemp"):
        return {"temp"}
    if t.k == "or":
        out = set()
        for x in t.a[0]:
            out |= origin(P, f, x, depth, seen)
        return out
    if t.k in ("ext", "glob") and "CACHE" in str(t.a[0]).upper():
        return {"own-root"}
    if t.k in ("ext", "global") or (t.k == "attr"):
        return {None}
    if t.k == "param":
        n = t.a[0]
        if n in ("cache_dir", "_cache_dir", "cache_path", "profile_dir"):
            return {"cache-root"}
        if n in FOREIGN:
            return {"foreign"}
        if depth > 4 or (f.qual, n) in seen:
            return set()
        srcs = param_sources(P, f, n)
        if not srcs:
            return {None}
        out = set()
        for g, a in srcs:
            out |= origin(P, g, a, depth + 1, seen + ((f.qual, n),))
        return out
    return {None}


def deletions(P, f):
    for e, c in own_events(P, f):
        p = removed_path(e)
        if p is not None:
            yield e, c, p


def sites(P, R):
    n = 0
    for q, f in sorted(P.funcs.items()):
        for e, c, p in deletions(P, f):
            n += 1
            R.unit(f.qual)
            what = f"{'.'.join(q.split('.')[-2:])}: {e.name}"
            if f.name == "_remove_target":
                continue  # see mapped
            o = origin(P, f, p)
            bad = "foreign" in o or "mapped" in o and False
            ok = False if bad else (None if None in o or not o else True)
            if "output" in o and not (f.module.name.endswith("resolver") or ends_with(p, ".checkpoints", ".checkpoints/")):
                ok = False
            R.ob("site", what, ok, f"removes {show(p, 5)}, which comes from {', '.join(sorted(str(x) for x in o))}", e.where)
            if e.name == "rmtree":
                R.ob("subdirectory", what, False if "cache-root" in o else ok, f"removes {show(p, 5)}", e.where)
    need(range(n), "local deletions", 12)


# ------------------------------------------------------------------ chunks
def chunk_of(t):
    """the number of the chunk whose path a term is: config[ChunkedIndex(…, chunk_index=X)][0] -> X"""
    t = strip(t)
    if t.k == "sub" and strip(t.a[0]).k == "sub":
        x = strip(strip(t.a[0]).a[1])
        if x.k in ("new", "call"):
            kw = dict(x.a[2])
            if "chunk_index" in kw:
                return strip(kw["chunk_index"])
            if len(x.a[1]) > 1:
                return strip(x.a[1][1])
        return x
    return None


def loaders(P, R):
    n = 0
    for q, f in sorted(P.funcs.items()):
        for e, c in own_events(P, f):
            if e.kind != "call" or e.name != "delete" or e.recv is None or not mentions_attr(e.recv, "_item_loader", "item_loader"):
                continue
            n += 1
            R.unit(f.qual)
            a = list(e.args) + [v for _, v in sorted((e.kw or {}).items(), key=lambda kv: kv[0] != "chunk_index")]
            path = a[1] if len(a) > 1 else None
            num = strip(a[0]) if a else None
            k = chunk_of(path) if path is not None else None
            R.ob("same-chunk", f"{'.'.join(q.split('.')[-2:])}", k is num if k is not None else (False if path is None else None), f"number {show(num, 4) if num is not None else '-'}, file {show(path, 4) if path is not None else '-'}", e.where)
    need(range(n), "deletions by an item loader")
    base = P.cls("streaming.item_loader.BaseItemLoader")
    for cls in base.all_subclasses():
        m = cls.methods.get("delete")
        if m is None:
            continue
        R.unit(m.qual)
        for e, c, p in deletions(P, m):
            R.ob("same-chunk", f"{cls.name}.delete", strip(p).k == "param" and strip(p).a[0] == list(m.params)[-1], f"removes {show(p, 4)}", e.where)


def nothing_there(t):
    """scenario of a dataset on the local disk, read without being downloaded or decompressed"""
    t = strip(t)
    if t.k == "attr" and t.a[1] in ("_remote_dir", "_downloader", "_compressor", "_compressor_name"):
        return False
    if t.k in ("is", "eq") and NONE in [strip(x) for x in t.a]:
        o = [strip(x) for x in t.a if strip(x) is not NONE]
        if o and o[0].k == "attr" and o[0].a[1] in ("_remote_dir", "_downloader", "_compressor", "_compressor_name"):
            return True
    return None


def no_downloader(t):
    t = strip(t)
    if t.k == "attr" and t.a[1] in ("_remote_dir", "_downloader"):
        return False
    if t.k in ("is", "eq") and NONE in [strip(x) for x in t.a]:
        o = [strip(x) for x in t.a if strip(x) is not NONE]
        if o and o[0].k == "attr" and o[0].a[1] in ("_remote_dir", "_downloader"):
            return True
    if t.k == "attr" and t.a[1] in ("_compressor",):
        return True
    if t.k == "isinst" and mentions_attr(t.a[0], "_downloader"):
        return False
    return None


def local(P, R):
    f = P.func("streaming.reader.BinaryReader.read")
    R.unit(f.qual)
    made = [(e, c) for e, c in own_events(P, f) if e.kind == "call" and (e.name == "PrepareChunksThread" or (e.name == "delete" and e.recv is not None and mentions_attr(e.recv, "_prepare_thread")))]
    made_else = []
    for q, g in sorted(P.funcs.items()):
        if g is not f and g.cls is not None and g.cls.name == "BinaryReader":
            made_else += [(e, c) for e, c in own_events(P, g) if e.kind == "call" and e.name == "PrepareChunksThread"]
    for e, c in made:
        if e.name != "PrepareChunksThread":
            continue
        dead = any(truth3(x, nothing_there) is False for x in c.guards)
        R.ob("local-kept", "BinaryReader.read: thread that deletes chunks", dead, "runs for a dataset read in place: the dataset's own files are deleted", e.where)
    for e, c in made_else:
        R.ob("local-kept", "thread that deletes chunks", None, "made elsewhere", e.where)
    need(made + made_else, "makers of the thread")
    # decompression
    c0 = P.cls("streaming.config.ChunksConfig")
    n = 0
    for q, m in sorted(P.funcs.items()):
        if m.cls is not c0:
            continue
        for e, c, p in deletions(P, m):
            n += 1
            R.unit(m.qual)
            dead = any(truth3(x, no_downloader) is False for x in c.guards)
            if not dead and ends_with(p, ".tmp", ".lock"):
                continue
            R.ob("local-kept", f"ChunksConfig.{m.name}", dead, f"removes {show(p, 4)} also of a dataset that wasn't downloaded", e.where)
    f = c0.find("__getitem__")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)

    def comp(t):
        t = strip(t)
        if t.k == "attr" and t.a[1] in ("_compressor", "_compressor_name"):
            return True
        if t.k in ("is", "eq") and NONE in [strip(x) for x in t.a] and any(strip(x).k == "attr" and strip(x).a[1] in ("_compressor", "_compressor_name") for x in t.a):
            return False
        return None
    r = spec(ev.ret, comp)
    first = strip(r).a[0][0] if strip(r).k in ("tuple", "list") and strip(r).a[0] else None
    if first is None:
        R.ob("local-kept", "name of a decompressed chunk", None, show(r, 4), f.where)
    else:
        first = strip(spec(first, comp))
        R.ob("local-kept", "name of a decompressed chunk", all(mentions_attr(x, "_compressor_name") or mentions_call(x, "removesuffix", "splitext", "_decompressed_name") for _, x in galts(first)), f"chunks of a compressed dataset are known as {show(first, 4)}, the compressed file itself", f.where)


# ------------------------------------------------------------------ remover of inputs
def input_path(t):
    return strip(t).k == "attr" and strip(t).a[1] == "path" and (mentions_attr(t, "input_dir") or mentions_param(t, "input_dir"))


def starts(t):
    """(what, with what) of a containment test"""
    t = strip(t)
    if t.k == "call" and t.a[0].k == "meth" and t.a[0].a[1] in ("startswith", "is_relative_to") and t.a[1]:
        return t.a[0].a[0], t.a[1][0]
    if t.k == "in":
        return t.a[1], t.a[0]
    if t.k in ("eq",) and any(mentions_call(x, "commonpath", "commonprefix") for x in t.a):
        x = [y for y in t.a if mentions_call(y, "commonpath", "commonprefix")][0]
        ins = [y for y in t.a if y is not x]
        return x, (ins[0] if ins else x)
    return None


def remover(P, R):
    f = P.func(DP + "_remove_target")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    n = 0

    def scenario(inside):
        def atom(t):
            t = strip(t)
            if t.k == "param" and t.a[0] == "input_dir":
                return True
            if t.k in ("is", "eq") and NONE in [strip(x) for x in t.a]:
                if any(input_path(x) for x in t.a):
                    return False
                if any(strip(x).k == "param" and strip(x).a[0] == "input_dir" for x in t.a):
                    return False
            if input_path(t):
                return True
            s = starts(t)
            if s:
                if input_path(s[1]) or mentions(s[1], input_path):
                    return inside
                if mentions_param(s[1], "cache_dir"):
                    return False
            return None
        return atom
    for e, c in flow.walk(seq):
        p = removed_path(e)
        if p is None:
            continue
        if any(truth3(g, scenario(True)) is False for g in c.guards):
            continue
        n += 1
        for v in [strip(x) for _, x in galts(strip(spec(p, scenario(True))))]:
            mapped_to(R, v, e)
    need(range(n), "removals of inputs")


def mapped_to(R, v, e):
    ok = v.k == "call" and v.a[0].k == "meth" and v.a[0].a[1] == "replace" and len(v.a[1]) == 2 and input_path(v.a[1][0]) and mentions_param(v.a[1][1], "cache_dir")
    ok = ok or (v.k == "join" and mentions_param(strip(v.a[0][0]), "cache_dir"))
    ok = ok or (v.k == "cat" and mentions_param(strip(v.a[0][0]), "cache_dir"))
    if not ok and not (v.k == "elem" or v.k == "call" and v.a[0].k == "meth" and v.a[0].a[1] == "get"):
        ok = False if not mentions_param(v, "cache_dir") else None
    R.ob("mapped", "_remove_target", ok, f"an input file is removed as {show(v, 5)}", e.where)


def outside_refused(P):
    """_remove_target itself leaves files alone that are in neither directory"""
    f = P.func(DP + "_remove_target")
    seq, ev = evaluate(P, f)

    def atom(t):
        t = strip(t)
        if t.k == "param" and t.a[0] == "input_dir":
            return True
        if t.k in ("is", "eq") and NONE in [strip(x) for x in t.a] and any(input_path(x) for x in t.a):
            return False
        s = starts(t)
        if s:
            return False
        return None
    return all(any(truth3(g, atom) is False for g in c.guards) for e, c in flow.walk(seq) if removed_path(e) is not None)


def queued(P, R):
    base = P.cls(DP + "BaseWorker")
    n = 0
    safe = outside_refused(P)
    for q, f in sorted(P.funcs.items()):
        if not f.module.name.endswith("data_processor"):
            continue
        for e, c in own_events(P, f):
            if e.kind != "call" or e.name not in ("put", "put_nowait") or e.recv is None or not e.args:
                continue
            r = strip(e.recv)
            if not (r.k == "param" and r.a[0] == "remove_queue" or r.k == "attr" and r.a[1] == "remove_queue"):
                continue
            v = strip(e.args[0])
            if v is NONE:
                continue
            R.unit(f.qual)
            what = f"{f.name}"
            if mentions_attr(v, "paths"):
                n += 1
                R.ob("queued", what, safe or only_inside(v, c), f"hands {show(v, 4)} to the remover: a file outside of the input directory isn't a copy, it is removed itself", e.where)
                need_known(R, f, v, c, e, what)
                done = [x for x, _ in own_events(P, f)]
                continue
            if v.k in ("list", "tuple"):
                n += 1
                up = [x.args[0] for x, _ in own_events(P, f) if x.kind == "call" and x.name in ("upload_file", "copy", "copyfile", "copy2", "move") and x.args]
                ok = all(any(strip(y) is strip(u) or same_file(y, u) for u in up) for y in v.a[0])
                R.ob("queued", what, ok, f"hands {show(v, 4)} to the remover, which isn't what was uploaded", e.where)
                continue
            R.ob("queued", what, None, f"hands {show(v, 4)} to the remover", e.where)
    need(range(n), "files handed to the remover", 2)


def same_file(a, b):
    return show(strip(a), 12) == show(strip(b), 12)


def only_inside(v, c):
    """every element of v lies in the input directory"""
    v = strip(v)
    if v.k == "comp":
        for it, cond in v.a[2]:
            if cond is None:
                continue
            for l in tm.literals(strip(cond)):
                s = starts(l) if strip(l).k != "not" else None
                if s and mentions(s[1], input_path):
                    return True
        return None if mentions_call(v, "_is_path") else False
    if v.k in ("sub", "elem", "attr"):
        return False
    if v.k in ("list", "tuple"):
        for l in [x for g in c.guards for x in tm.literals(strip(g))]:
            s = starts(l) if strip(l).k != "not" else None
            if s and mentions(s[1], input_path):
                return True
        return False
    if v.k == "call" and v.a[0].k != "meth" and fname(v).split(".")[-1] in ("list", "tuple", "sorted", "filter") and v.a[1]:
        return only_inside(v.a[1][-1], c) if fname(v).split(".")[-1] != "filter" else None
    return None


def need_known(R, f, v, c, e, what):
    """whether another item made of the same file is considered"""
    conds = [x for g in c.guards for x in tm.literals(strip(g))]
    if strip(v).k == "comp":
        conds += [l for _, cond in strip(v).a[2] if cond is not None for l in tm.literals(strip(cond))]
    counts = any(mentions_attr(x, "paths") and not (starts(x)) or mentions(x, lambda y: y.k == "attr" and any(w in y.a[1] for w in ("count", "uses", "refs", "remaining", "needed"))) and not mentions_attr(x, "_counter") for x in conds)
    R.ob("needed", what, None if counts else False, "removed after the first item that uses it", e.where)


def asked(P, R):
    n = 0
    for q, f in sorted(P.funcs.items()):
        for e, c in own_events(P, f):
            if e.kind != "call" or dotted(strip((e.kw or {}).get("target") or NONE)).split(".")[-1] != "_remove_target":
                continue
            n += 1
            R.unit(f.qual)

            def atom(t):
                return False if strip(t).k == "attr" and strip(t).a[1] == "remove" else None
            R.ob("asked", f"{f.name}: remover", any(truth3(g, atom) is False for g in c.guards), "runs although cached files are to be kept", e.where)
    need(range(n), "removers")
    f = P.func(DP + "DataProcessor._create_process_workers")
    R.unit(f.qual)
    init = P.cls(DP + "BaseWorker").find("__init__")
    for e, c in own_events(P, f):
        if e.kind == "call" and target_of(P, e) is init:
            v = (passed(e, init) or {}).get("remove")
            R.ob("asked", "DataProcessor -> worker", v is not None and strip(v).k == "attr" and strip(v).a[1] == "delete_cached_files", f"remove = {show(v, 3) if v is not None else 'default'}", e.where)


# ------------------------------------------------------------------ remote locations
def providers(P, R):
    base = P.cls("streaming.fs_provider.FsProvider")
    n = 0
    for cls in base.all_subclasses():
        m = cls.find("delete_file_or_directory")
        R.unit(m.qual)
        seq, ev = evaluate(P, m, self_cls=cls, opaque={"get_bucket_and_path"})
        k = 0
        for e, c in flow.walk(seq):
            if e.kind != "call" or e.name not in ("delete", "delete_object", "delete_blob", "delete_objects", "delete_blobs"):
                continue
            k += 1
            n += 1
            what = f"{cls.name}.delete_file_or_directory"
            kw = kwnamed(e.kw)
            name = kw.get("Key") or (e.args[0] if e.args else e.recv)
            src = [x for x in subterms(name) if x.k in ("elem",)] if name is not None else []
            # the single object that was named
            if not src:
                R.ob("inside", what, True if mentions(name, lambda x: x.k == "param") else None, f"removes {show(name, 4)}", e.where)
                continue
            conds = list(c.guards)
            for x in src:
                it = strip(x.a[0])
                if it.k == "comp":
                    conds += [cond for _, cond in it.a[2] if cond is not None]
            listing = [y for x in src for y in subterms(x) if y.k == "call"]
            closed = any(listed_inside(y) for y in listing)
            sib = any(truth3(g, related("sibling")) is False for g in conds)
            R.ob("inside", f"{what}: a sibling", sib or closed, "an object whose name only starts like the location is removed with it", e.where)
            for rel in ("inside", "itself"):
                bad = any(truth3(g, related(rel)) is False for g in conds) or (rel == "itself" and closed and not sib)
                if rel == "itself" and bad and closed:
                    # directories only: accepted as long as some other deletion is of the object itself
                    continue
                R.ob("inside", f"{what}: {rel}", not bad, f"an object {'inside' if rel == 'inside' else 'that is the location itself'} is left", e.where)
        need(range(k), f"deletions of {cls.name}")
        for nm in ("delete_file_or_directory", "download_directory"):
            m2 = cls.find(nm)
            if m2 is None or m2.cls is base:
                continue
            reach = [m2] + [cls.find(e.name) for e, _ in own_events(P, m2) if e.kind == "call" and e.recv is not None and strip(e.recv).k == "self" and cls.find(e.name)]
            for g in reach:
                R.unit(g.qual)
                for e, c in own_events(P, g):
                    if e.kind != "call":
                        continue
                    if e.name in ("list_objects_v2", "list_objects"):
                        kw = kwnamed(e.kw)
                        more = bool(c.loops) and (any(x in kw for x in ("ContinuationToken", "StartAfter", "Marker")) or "**" in kw)
                        R.ob("whole", f"{cls.name}.{nm}", more, "only the first page of the listing is looked at: 1000 objects", e.where)
                    elif e.name == "get_paginator":
                        R.ob("whole", f"{cls.name}.{nm}", True, "", e.where)
                    elif e.name == "list_blobs":
                        R.ob("whole", f"{cls.name}.{nm}", "max_results" not in (e.kw or {}) and "delimiter" not in (e.kw or {}), "the listing is cut", e.where)
    need(range(n), "remote deletions", 2)


def listed_inside(call):
    """a listing by a prefix that ends with '/'"""
    for k, v in dict(call.a[2]).items() if call.a[2] else ():
        if k in ("Prefix", "prefix") and isinstance(v, T) and ends_with(v, "/"):
            return True
    return False


def related(rel):
    """scenario: the location is 'a/b'; the object is 'a/b2' (sibling), 'a/b/c' (inside) or 'a/b' (itself)"""
    loc = lambda t: mentions_call(t, "get_bucket_and_path", "urlparse") or mentions_param(t, "path", "blob_path", "prefix")

    def slash(t):
        return ends_with(t, "/")

    def obj(t):
        return mentions(t, lambda x: x.k == "elem")

    def atom(t):
        t = strip(t)
        if t.k == "eq" and len(t.a) == 2:
            a, b = t.a
            if obj(a) != obj(b):
                l = b if obj(a) else a
                if not loc(l):
                    return None
                if mentions_call(a if obj(a) else b, "dirname"):
                    return {"sibling": False, "inside": True, "itself": False}[rel]
                return {"sibling": False, "inside": False, "itself": True}[rel] if not slash(l) else False
        if t.k == "call" and t.a[0].k == "meth" and t.a[0].a[1] == "startswith" and len(t.a[1]) == 1:
            o, l = t.a[0].a[0], t.a[1][0]
            if obj(o) and loc(l):
                oslash = ends_with(o, "/")
                if slash(l):
                    return {"sibling": False, "inside": True, "itself": oslash}[rel]
                return True
        if loc(t) and not obj(t) and t.k in ("sub", "param"):
            return True
        return None
    return atom


def cleanup(P, R):
    f = P.func(DP + "DataProcessor._cleanup_checkpoints")
    R.unit(f.qual)
    n = 0
    for q, g in sorted(P.funcs.items()):
        if not g.module.name.startswith("litdata.processing"):
            continue
        for e, c in own_events(P, g):
            p = removed_path(e)
            if p is None and e.kind == "call" and e.name == "delete_file_or_directory" and e.args:
                p = e.args[0]
            if p is None:
                continue
            if mentions_attr(p, "output_dir") or mentions_param(p, "output_dir"):
                n += 1
                R.ob("checkpoints-only", f"{g.name}: {e.name}", ends_with(p, ".checkpoints", ".checkpoints/"), f"removes {show(p, 5)} from the output location", e.where)
    need(range(n), "removals of checkpoints", 2)
