"""C19: the options given for accessing storage reach every access made for that dataset."""
from .common import *

NAMES = ("storage_options", "_storage_options")
# what makes a connection: the last part of the name of the callable
CLIENTS = ("Client", "BlobServiceClient", "hf_hub_download", "snapshot_download", "filesystem", "HfFileSystem", "from_connection_string")


def check(P, R):
    R.rule("handed-on", "every call that takes storage options, made where they are at hand, hands them on")
    R.rule("worker", "the options are among the arguments of the helper processes and threads, in the place of that parameter")
    R.rule("kept", "the options are stored as they were given and nothing changes them")
    R.rule("client", "every connection is made with the options, and they win over the defaults")
    R.rule("own", "connections and providers are made for the options at hand, not shared between datasets")
    R.rule("no-default", "no connection that ignores the options is made when there are some")
    R.rule("entry", "no access to remote storage is made by a function that doesn't know the options")
    R.part(P, handed, workers, kept, clients, downloaders, s5cmd, entries)


def is_opts(t):
    return (t.k == "param" and t.a[0] in NAMES) or (t.k == "attr" and t.a[1] in NAMES)


def same(t):
    """the options themselves, or {} in place of nothing, or a copy"""
    t = strip(t)
    if is_opts(t):
        return True
    if t.k in ("phi", "join"):
        xs = t.a[0] if isinstance(t.a[0], tuple) else t.a
        return all(isinstance(x, T) and same(x) for x in xs)
    if t.k == "ite":
        vs = list(galts(t))
        ok = True
        for g, v in vs:
            v = strip(v)
            if same(v):
                continue
            # replaced only when there are none
            none = any(implies_no_opts(l) for l in tm.literals(strip(g)))
            ok = ok and none and (v is NONE or (v.k == "dict" and not v.a[0]))
        return ok
    if t.k == "or":
        return all(same(x) or empty(x) for x in t.a[0]) and any(same(x) for x in t.a[0])
    if t.k == "call":
        n = fname(t).split(".")[-1] if t.a[0].k != "meth" else t.a[0].a[1]
        if t.a[0].k == "meth" and n == "copy" and not t.a[1]:
            return same(t.a[0].a[0])
        if n in ("dict", "copy", "deepcopy") and len(t.a[1]) == 1 and not t.a[2]:
            return same(t.a[1][0])
    if t.k == "dict":
        fs = list(t.a[0])
        return len(fs) == 1 and is_star(fs[0]) and same(fs[0][1])
    return False


def empty(t):
    t = strip(t)
    return t is NONE or (t.k == "dict" and not t.a[0])


def implies_no_opts(l):
    l = strip(l)
    if l.k == "not" and is_opts(strip(l.a[0])):
        return True
    return l.k in ("is", "eq") and NONE in [strip(x) for x in l.a] and any(is_opts(strip(x)) for x in l.a)


def is_star(kv):
    k = kv[0]
    return isinstance(k, T) and k.k == "star"


def there(t):
    """a scenario with options: they are neither None nor empty"""
    t = strip(t)
    if same(t):
        return True
    if t.k in ("is", "eq") and any(is_opts(strip(x)) for x in t.a) and any(empty(x) for x in t.a):
        return False
    if t.k == "call" and fname(t).split(".")[-1] in ("len", "bool") and len(t.a[1]) == 1 and is_opts(strip(t.a[1][0])):
        return True
    if t.k == "call" and t.a[0].k != "meth" and fname(t).split(".")[-1] == "isinstance" and is_opts(strip(t.a[1][0])):
        return True
    return None


def wins(v):
    """True: the mapping holds every option with its value; False: it doesn't; None: not understood"""
    v = spec(strip(v), there)
    v = strip(v)
    if same(v):
        return True
    if v.k == "dict":
        state = False
        for kv in v.a[0]:
            if is_star(kv):
                if wins(kv[1]) is True:
                    state = True
                elif state:
                    state = False
            elif state:
                return False
        return state
    if v.k == "mut":
        what, name, args = v.a[0], v.a[1], v.a[2]
        if name == "update" and len(args) == 1:
            if wins(args[0]) is True:
                return True
            return False if wins(what) is True else wins(what)
        if name in ("setdefault",):
            return wins(what)
        if name in ("pop", "clear", "popitem", "__delitem__", "__setitem__"):
            return False
        return None
    if v.k == "bitor" or (v.k == "bin" and len(v.a) == 3 and v.a[0] == "|"):
        r = v.a[-1]
        return True if wins(r) is True else False
    if v.k == "call" and v.a[0].k != "meth" and fname(v).split(".")[-1] == "dict":
        kw = dict(v.a[2])
        if "**" in kw:
            return True if wins(kw["**"]) is True else False
        return False
    if v.k == "ite":
        xs = [wins(x) for _, x in galts(v)]
        return False if False in xs else (None if None in xs else True)
    if v.k == "comp" and mentions(v, is_opts):
        return False if any(cond is not None and strip(cond) is not TRUE for _, cond in v.a[2]) else None
    return False if not mentions(v, is_opts) else None


# ------------------------------------------------------------------ within the package
def local_cache(f, t):
    """caches made over a local directory to write or merge an index; no remote access"""
    return t.qual.endswith("cache.Cache.__init__") and (f.name in ("_create_cache", "_done", "_upload_index") and f.module.name.endswith("data_processor") or f.cls is not None and f.cls.name == "CacheDataset")


def handed(P, R):
    n = wired(P, R, "handed-on", "storage_options", skip=lambda f, t: local_cache(f, t) or forwards(P, f) is t)
    need(range(n), "calls that take storage options", 30)
    # the value itself, not something made of it
    for q, f in sorted(P.funcs.items()):
        for e, c in own_events(P, f):
            t = target_of(P, e)
            if t is None or "storage_options" not in t.params:
                continue
            a = passed(e, t)
            v = None if a is None else a.get("storage_options")
            if v is None or not mentions(v, is_opts):
                continue
            R.unit(f.qual)
            R.ob("kept", f"{'.'.join(q.split('.')[-2:])} -> {'.'.join(t.qual.split('.')[-2:])}", True if same(v) else wins(v), f"passes {show(v, 5)}", e.where)


def workers(P, R):
    n = 0
    for q, f in sorted(P.funcs.items()):
        for e, c in own_events(P, f):
            if e.kind != "call":
                continue
            kw = kwnamed(e.kw)
            target = args = None
            if "target" in kw:
                target = kw["target"]
                args = kw.get("args")
                args = None if args is None else (list(strip(args).a[0]) if strip(args).k in ("tuple", "list") else False)
            elif e.name in ("submit", "apply_async", "run_in_executor") and e.args:
                target, args = e.args[0], list(e.args[1:])
            if target is None:
                continue
            t = P.funcs.get(dotted(strip(target))) or P.funcs.get("litdata." + dotted(strip(target)))
            if t is None or "storage_options" not in t.params:
                continue
            n += 1
            R.unit(f.qual)
            what = f"{f.name} -> {t.name}"
            if args is False:
                R.ob("worker", what, None, "arguments not understood", e.where)
                continue
            i = list(t.params).index("storage_options")
            inner = strip(kw["kwargs"]) if "kwargs" in kw else None
            v = args[i] if args and i < len(args) else None
            if v is None and inner is not None and inner.k == "dict":
                v = dict_get(inner, "storage_options")
            if v is None and "target" not in kw:
                v = kw.get("storage_options")
            R.ob("worker", what, v is not None and (same(v) or wins(v) is True), f"storage_options = {show(v, 4) if v is not None else 'not passed'}", e.where)
            if args:
                for j, x in enumerate(args):
                    if j != i and is_opts(strip(x)):
                        R.ob("worker", what, False, f"the options are passed as {list(t.params)[j] if j < len(t.params) else 'an argument too many'}", e.where)
    need(range(n), "helpers that take storage options", 3)


def kept(P, R):
    n = 0
    for q, f in sorted(P.funcs.items()):
        for e, c in own_events(P, f):
            if e.kind == "store" and getattr(e, "attr", None) in NAMES:
                n += 1
                R.unit(f.qual)
                who = "self" if strip(e.base).k == "self" else show(e.base, 3)
                R.ob("kept", f"{'.'.join(q.split('.')[-2:])} sets {who}.{e.attr}", True if same(e.value) else wins(e.value), f"set to {show(e.value, 5)}", e.where)
            elif e.kind in ("substore", "subdel", "del", "store") and getattr(e, "base", None) is not None and is_opts(strip(e.base)):
                R.ob("kept", f"{'.'.join(q.split('.')[-2:])} leaves the options alone", False, "an option is set or removed", e.where)
            elif e.kind == "call" and e.name in ("pop", "popitem", "clear", "update", "setdefault", "__setitem__", "__delitem__"):
                recv = getattr(e, "recv", None)
                if recv is not None and is_opts(strip(recv)):
                    R.ob("kept", f"{'.'.join(q.split('.')[-2:])} leaves the options alone", False, f"calls {e.name} on them", e.where)
    need(range(n), "stores of the options", 8)


# ------------------------------------------------------------------ connections
def connects(e):
    if e.kind != "call":
        return False
    if e.name in CLIENTS:
        return True
    # boto3: session.client("s3", …), boto3.client(…)
    return e.name in ("client", "resource") and bool(e.args) and strip(e.args[0]).k == "const"


def clients(P, R):
    n = 0
    for q, f in sorted(P.funcs.items()):
        for e, c in own_events(P, f):
            if not connects(e) or (e.callee or "").startswith("litdata."):
                continue
            R.unit(f.qual)
            what = f"{'.'.join(q.split('.')[-2:])}: {e.name}"
            if any(truth3(g, there) is False for g in c.guards):
                R.ob("no-default", what, True, "", e.where)
                continue
            n += 1
            kw = kwnamed(e.kw)
            star = kw.get("**")
            if star is None:
                R.ob("no-default" if e.name in ("client", "resource") else "client", what, False, "connects without the options", e.where)
                continue
            R.ob("client", what, wins(star), f"made with **{show(star, 5)}", e.where)
    need(range(n), "connections", 6)
    # objects that connect with what they were given
    for q, f in sorted(P.funcs.items()):
        for e, c in own_events(P, f):
            t = target_of(P, e)
            if t is None or t.name != "__init__" or t.cls.name != "S3Client" or e.name == "__init__":
                continue
            a = passed(e, t)
            v = None if a is None else a.get("storage_options")
            R.ob("client", f"{'.'.join(q.split('.')[-2:])}: S3Client", v is not None and (same(v) or wins(v) is True), f"storage_options = {show(v, 4) if v is not None else 'not passed'}", e.where)


def downloaders(P, R):
    f = P.func("streaming.downloader.get_downloader")
    R.unit(f.qual)
    init = P.cls("streaming.downloader.Downloader").find("__init__")
    i = [p for p in init.params if p != "self"].index("storage_options")
    seq, ev = evaluate(P, f, opaque={"__init__"})
    n = 0
    for x in [v for _, v in galts(ev.ret)]:
        x = strip(x)
        if x.k not in ("call", "new"):
            if x.k != "undef":
                R.ob("handed-on", "get_downloader: downloader of a prefix", None, show(x, 4), f.where)
            continue
        n += 1
        args, kw = list(x.a[1]), dict(x.a[2])
        v = kw.get("storage_options") or (args[i] if i < len(args) else None)
        R.ob("handed-on", "get_downloader: downloader of a prefix", v is not None and same(v), f"{show(x, 4)}", f.where)
    need(range(n), "downloaders made", 2)
    # no connection is shared between datasets
    for q, cls in (("streaming.fs_provider._get_fs_provider", "FsProvider"), ("utilities.parquet.get_parquet_indexer_cls", "ParquetDir")):
        f = P.func(q)
        R.unit(f.qual)
        init = P.cls(("streaming.fs_provider." if cls == "FsProvider" else "utilities.parquet.") + cls).find("__init__")
        seq, ev = evaluate(P, f, opaque={"__init__"}, policy=lambda t: False)
        vs = [strip(v) for _, v in galts(ev.ret) if strip(v).k != "undef" and strip(v) is not NONE]
        need(vs, f"results of {f.name}")
        for v in vs:
            if v.k in ("new", "call"):
                R.ob("own", f"{f.name}: {show(v, 2)[:60].split('(')[0]}", True, "", f.where)
            else:
                R.ob("own", f"{f.name}: made for the call", False, f"returns {show(v, 4)}, which may have been made with other options", f.where)
    for q, f in sorted(P.funcs.items()):
        for e, c in own_events(P, f):
            if e.kind == "store" and getattr(e, "attr", None) in ("_client", "client", "fs") and strip(e.base).k != "self":
                if f.cls is not None or strip(e.base).k in ("ext", "class", "global"):
                    R.ob("own", f"{'.'.join(q.split('.')[-2:])}: connection kept by the object that made it", False, f"kept in {show(e.base, 3)}", e.where)
    # every downloader class keeps what it is given
    for c in P.cls("streaming.downloader.Downloader").all_subclasses():
        m = c.methods.get("__init__")
        if m is None:
            continue
        R.unit(m.qual)
        sup = [e for e, _ in own_events(P, m) if e.kind == "call" and e.name == "__init__"]
        sets = [e for e, _ in own_events(P, m) if e.kind == "store" and e.attr == "_storage_options"]
        R.ob("handed-on", f"{c.name} keeps its options", bool(sup or sets), "the options are dropped", m.where)


def s5cmd(P, R):
    f = P.func("streaming.downloader.S3Downloader.download_file")
    R.unit(f.qual)
    runs = [(e, c) for e, c in own_events(P, f) if e.kind == "call" and e.name in ("Popen", "run", "call", "check_call", "check_output", "system")]
    runs = [(e, c) for e, c in runs if e.args and mentions(e.args[0], lambda x: x.k == "const" and "s5cmd" in str(x.a[1]))]
    if not runs:
        R.ob("client", "s5cmd is not used", True, "", f.where)
        return
    for e, c in runs:
        env = kwnamed(e.kw).get("env")
        ok = False
        if env is not None:
            env = spec(env, there)
            ok = wins(env)
            if ok and not mentions(env, lambda x: (x.k == "ext" and "environ" in str(x.a[0])) or (x.k == "attr" and x.a[1] == "environ")):
                R.ob("client", "s5cmd runs in the environment of the process", False, f"env = {show(env, 4)}", e.where)
        R.ob("client", "s5cmd gets the options", ok, f"env = {show(env, 5) if env is not None else 'not given'}", e.where)
        key = lambda x: x.k == "const" and eval_str(x) == "AWS_NO_SIGN_REQUEST"
        flag = lambda x: x.k == "const" and "--no-sign-request" in str(x.a[1])
        if mentions(e.args[0], flag) or any(mentions(g, key) for g in c.guards):
            R.ob("client", "s5cmd signs unless the options say not to", mentions(e.args[0], key) or any(mentions(g, key) for g in c.guards), "requests are unsigned whatever the options say", e.where)
        else:
            R.ob("client", "s5cmd signs unless the options say not to", False, "AWS_NO_SIGN_REQUEST has no effect", e.where)


def entries(P, R):
    """functions that reach remote storage know the options"""
    n = 0
    for q, f in sorted(P.funcs.items()):
        for e, c in own_events(P, f):
            t = target_of(P, e)
            if t is None or "storage_options" not in t.params or local_cache(f, t):
                continue
            a = passed(e, t)
            if a is None:
                continue
            n += 1
            v = a.get("storage_options")
            R.unit(f.qual)
            ok = v is not None and mentions(v, is_opts)
            if v is not None and not ok and not is_const(strip(v)) and not empty(v):
                ok = None
            R.ob("entry", f"{'.'.join(q.split('.')[-2:])} -> {'.'.join(t.qual.split('.')[-2:])}", ok, f"accesses storage without the options: {show(v, 4) if v is not None else 'none passed'}", e.where)
    need(range(n), "accesses", 40)
