"""C09: downloaders check their scheme, transfer the requested object to the requested path under the lock, and report failures."""
from .common import *

DL = "streaming.downloader."
LOOKS = ("os.path.exists", "os.path.isfile", "os.remove", "os.unlink", "os.rename", "os.replace", "os.path.dirname", "os.path.basename", "os.makedirs", "print", "str", "len", "os.path.getsize", "os.stat",
         "filelock.FileLock", "os.path.join", "os.fspath")
RUNS = ("subprocess.Popen", "subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "os.system")


def check(P, R):
    R.rule("scheme", "a transfer happens only after the address was seen to carry the scheme under which the downloader is registered")
    R.rule("addressed-object", "the object asked for is the one the remote path names")
    R.rule("requested-path", "what is transferred ends up under the requested local path")
    R.rule("locked", "every transfer is done while holding the file lock of the requested path")
    R.rule("present-kept", "a file that is already present is not transferred again")
    R.rule("errors-surface", "around a transfer only the time-out of the file lock is swallowed")
    R.rule("exit-code", "a download command that failed raises")
    R.rule("factory", "the downloader is chosen by the address prefix and given the arguments in their order")
    R.rule("same-name", "a chunk is fetched from the remote directory into the cache directory under one and the same name")
    R.part(P, downloaders, factory, names, config, indexes)


def registry(P):
    m = P.modules["litdata.streaming.downloader"]
    out = {}
    for n in ast.walk(m.tree):
        tg = n.target if isinstance(n, ast.AnnAssign) else (n.targets[0] if isinstance(n, ast.Assign) else None)
        if tg is not None and isinstance(tg, ast.Name) and tg.id == "_DOWNLOADERS" and isinstance(n.value, ast.Dict):
            for k, v in zip(n.value.keys, n.value.values):
                if isinstance(k, ast.Constant) and isinstance(v, ast.Name):
                    out[k.value] = v.id
    if not out:
        raise AnalysisBroken("_DOWNLOADERS not found")
    return out


def downloaders(P, R):
    reg = registry(P)
    by = {v: k for k, v in reg.items()}
    n = 0
    for cls in P.cls(DL + "Downloader").all_subclasses():
        f = cls.methods.get("download_file")
        if f is None:
            continue
        R.unit(f.qual)
        if len(f.params) < 3:
            raise AnalysisBroken(f"{f.qual}: parameters")
        src, dst = mk("param", f.params[1]), mk("param", f.params[2])
        seq, ev = evaluate(P, f)
        name = cls.name
        transfers = []
        for e, c in flow.walk(seq):
            if e.kind == "call" and not e.inlined and is_transfer(e, dst) and not boring(e):
                transfers.append((e, c))
        if not transfers:
            raise AnalysisBroken(f"{f.qual}: no transfer found")
        prefix = by.get(name)
        for e, c in transfers:
            n += 1
            what = f"{name}: {e.name or e.callee}"
            # locked
            R.ob("locked", what, any(locked_by(w, dst) for w in c.withs), f"held: {'; '.join(show(w, 4) for w in c.withs)}"[:200], e.where)
            # kept
            R.ob("present-kept", what, guard_has(c, lambda g: absent(g, dst)), guards_str(c)[:250], e.where)
            # scheme
            if prefix is not None and prefix.endswith("://"):
                sch = prefix[:-3]
                ok = guard_has(c, lambda g: scheme_is(g, src, sch))
                R.ob("scheme", what, ok, f"registered under {prefix!r}; transfers under {guards_str(c)}"[:300], e.where)
            # errors
            for w in c.withs:
                for x in subterms(w):
                    if x.k == "call" and fname(x).endswith("suppress"):
                        bad = [show(a, 3) for a in x.a[1] if not show(a, 3).endswith("Timeout")]
                        R.ob("errors-surface", what, not bad, f"swallows {bad}", e.where)
            for t, part in c.trys:
                if part != "body":
                    continue
                for h in t.handlers:
                    names = handler_names(h.node) if hasattr(h, "node") else ["?"]
                    if all(x == "Timeout" for x in names):
                        continue
                    R.ob("errors-surface", f"{what}: handler", always_raises(t, h), f"handler of {names}", e.where)
            # target path
        # requested path
        tg = [e for e, c in transfers if reaches(e, dst)]
        rn = [e for e, _ in flow.walk(seq) if e.kind == "call" and e.callee in ("os.rename", "os.replace", "shutil.move") and len(e.args) > 1 and strip(e.args[1]) is dst]
        R.ob("requested-path", name, bool(tg or rn), "nothing reaches the requested path", f.where)
        for e, c in transfers:
            t = target(e)
            if t is None:
                continue
            ok = strip(t) is dst or any(strip(r.args[0]) is strip(t) for r in rn)
            R.ob("requested-path", f"{name}: target", ok, f"writes {show(t, 4)}", e.where)
        # object
        addressed(P, R, name, seq, src, prefix)
        exit_code(R, name, seq)
    need(range(n), "transfers", 5)
    # the prefix given to a delegating downloader is removed, nothing else
    f = P.func(DL + "LocalDownloaderWithCache.download_file")
    R.unit(f.qual)


def boring(e):
    return e.callee in LOOKS or (e.callee or "").endswith("FileLock") or (e.callee or "").endswith("suppress") or e.name in ("debug", "info", "warning", "error", "format", "endswith", "startswith", "join", "decode", "strip",
                                                                                                              "append", "wait", "communicate", "poll", "read", "encode", "replace", "split", "close") \
        or e.fn is not None and e.fn.k == "cls" or (e.callee or "") and (e.callee.split(".")[-1][:1].isupper() and e.callee not in RUNS)


def is_transfer(e, dst):
    """a call that is handed the requested path, a temporary name built from it or a file opened there"""
    for a in list(e.args) + list(e.kw.values()):
        if mentions(a, lambda x: x is dst):
            if e.callee in ("open", "io.open"):
                return False
            return True
    return False


def target(e):
    p = fills(e)
    if p is not None:
        return p
    if e.callee in COPIES and len(e.args) > 1:
        return e.args[1]
    return None


def reaches(e, dst):
    if e.callee in RUNS:
        return True
    return any(strip(a) is dst for a in list(e.args) + list(e.kw.values())) or strip(target(e) or NONE) is dst


COPIES = ("shutil.copy", "shutil.copyfile", "shutil.copy2", "shutil.move")


def locked_by(w, dst):
    for x in subterms(w):
        if x.k in ("call", "new") and fname(x).endswith("FileLock") and x.a[1]:
            s = suffix(x.a[1][0], dst)
            if s:
                return True
    return False


def absent(g, dst):
    return any(l.k == "not" and fname(strip(l.a[0])) in ("os.path.exists", "os.path.isfile") and strip(strip(l.a[0]).a[1][0]) is dst for l in tm.literals(g))


def scheme_is(g, src, sch):
    for l in tm.literals(g):
        if l.k == "eq":
            a, b = l.a
            for x, y in ((a, b), (b, a)):
                if y.k == "const" and eval_str(y) == sch and scheme_of(x, src):
                    return True
        if l.k == "call" and fname(l) == "startswith" and strip(l.a[0].a[0]) is src and l.a[1] and l.a[1][0].k == "const":
            if eval_str(l.a[1][0]).rstrip("/").rstrip(":") == sch:
                return True
    return False


def parsed(t, src):
    t = strip(t)
    return t.k == "call" and fname(t).split(".")[-1] in ("urlparse", "urlsplit") and t.a[1] and strip(t.a[1][0]) is src


def scheme_of(t, src):
    t = strip(t)
    if t.k == "attr" and t.a[1] == "scheme":
        return parsed(t.a[0], src)
    return t.k == "sub" and parsed(t.a[0], src) and show(t.a[1], 2) == "0"


def always_raises(t, h):
    body = h.body if hasattr(h, "body") else h
    return "norm" not in flow.exits(body) and "ret" not in flow.exits(body)


def exit_code(R, name, seq):
    runs = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.callee in RUNS]
    for e, c in runs:
        if e.callee in ("subprocess.check_call", "subprocess.check_output") or (e.callee == "subprocess.run" and e.kw.get("check") is TRUE):
            R.ob("exit-code", f"{name}: {e.callee}", True, "checked", e.where)
            continue
        proc = strip(e.term)

        def code(x):
            x = strip(x)
            return x is proc or (x.k == "attr" and x.a[1] == "returncode" and mentions(x, lambda y: strip(y) is proc)) or (
                x.k == "call" and fname(x) in ("wait", "poll") and mentions(x, lambda y: strip(y) is proc))

        base = {strip(l) for g in c.guards for l in tm.literals(g)}

        def failed(l):
            """the literal says that the command failed"""
            l = strip(l)
            if l.k == "not":
                l2 = strip(l.a[0])
                return l2.k == "eq" and any(code(x) for x in l2.a) and any(show(x, 2) == "0" for x in l2.a)
            return code(l)

        ok = False
        for r, rc in flow.walk(seq):
            if r.kind == "raise":
                extra = [l for g in rc.guards for l in tm.literals(g) if strip(l) not in base]
                if extra and all(failed(l) for l in extra):
                    ok = True
        R.ob("exit-code", f"{name}: {e.callee}", ok, "no raise exactly when the command failed", e.where)


ADDRESS = {"bucket": "netloc", "blob": "path", "container": "netloc"}


def addressed(P, R, name, seq, src, prefix):
    """every bucket/key given to a client comes from the parsed remote path"""
    n = 0
    for e, c in flow.walk(seq):
        if e.kind != "call" or e.inlined:
            continue
        want = []
        if e.name == "bucket" and e.args:
            want = [(e.args[0], "netloc")]
        elif e.name == "blob" and e.args:
            want = [(e.args[0], "path")]
        elif e.name == "get_blob_client":
            want = [(e.kw.get("container", e.arg(0)), "netloc"), (e.kw.get("blob", e.arg(1)), "path")]
        elif e.name == "download_file" and len(e.args) >= 3 and e.callee is None:
            want = [(e.args[0], "netloc"), (e.args[1], "path")]
        elif e.callee in COPIES or (e.callee in RUNS):
            n += 1
            if name.startswith("HF"):
                ok = mentions(e.args[0], lambda x: fname(x).endswith("hf_hub_download"))
            else:
                ok = mentions(e.args[0], lambda x: x is src)
            R.ob("addressed-object", f"{name}: source", ok, show(e.args[0], 5)[:200], e.where)
            if e.callee in RUNS:
                order(R, name, e, src)
        elif (e.callee or "").endswith("hf_hub_download"):
            n += 1
            ok = all(mentions(a, lambda x: x is src) for a in e.args[:2]) and hf_parts(e, src)
            R.ob("addressed-object", f"{name}: repository and path", ok, show(e.term, 6)[:250], e.where)
        for t, part in want:
            n += 1
            R.ob("addressed-object", f"{name}: {part}", t is not None and part_of(t, src, part), show(t, 6)[:200] if t is not None else "missing", e.where)
    if n == 0 and name != "LocalDownloaderWithCache":
        R.ob("addressed-object", name, None, "no recognised transfer", "")


def part_of(t, src, part):
    for g, a in galts(t):
        a = strip(a)
        if a.k == "call" and fname(a) in ("lstrip", "removeprefix") and a.a[1] and a.a[1][0].k == "const" and eval_str(a.a[1][0]) == "/":
            a = strip(a.a[0].a[0])
        elif a.k == "slice" or (a.k == "sub" and a.a[1].k == "slice"):
            lits = tm.literals(g)
            ok = any(l.k == "eq" and mentions(l, lambda x: x.k == "const" and x.a[0] == "str" and eval_str(x) == "/") or fname(l) == "startswith" for l in lits)
            if not ok or not show(a, 6).endswith("[1::]"):
                return False
            a = strip(a.a[0])
        if not (a.k == "attr" and a.a[1] == part and parsed(a.a[0], src)):
            return False
    return True


def hf_parts(e, src):
    """org/name and path are consecutive parts of the address"""
    def ix(a):
        a = strip(a)
        out = []
        for p in a.a[0] if a.k == "cat" else [a]:
            for x in subterms(p):
                if x.k == "sub" and fname(strip(x.a[0])) == "split" and strip(strip(x.a[0]).a[0].a[0]) is src and tm.is_num(x.a[1]):
                    out.append(int(float(x.a[1].a[1])))
        return out

    got = [ix(a) for a in e.args[:2]]
    return got == [[3, 4], [5]] or not (got[0] or got[1])


def order(R, name, e, src):
    """a copy command names the remote file before the local one"""
    for x in subterms(e.args[0]):
        if x.k in ("list", "tuple") and len(x.a[0]) > 2:
            els = [strip(y) for y in x.a[0]]
            i = [k for k, y in enumerate(els) if y is src]
            j = [k for k, y in enumerate(els) if y.k == "param" and y is not src]
            if i and j:
                R.ob("addressed-object", f"{name}: command order", i[0] < j[0], show(x, 4), e.where)
                return


def factory(P, R):
    f = P.func(DL + "get_downloader")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, policy=lambda *a: False)
    params = [mk("param", p) for p in f.params]
    seen, dflt = 0, 0
    for e, c in flow.walk(seq):
        if e.kind != "return" or e.inlined:
            continue
        for g, v in galts(e.value):
            v = strip(v)
            if v is NONE or v.k not in ("call", "new"):
                R.ob("factory", "what is returned", False if v is NONE else None, show(v, 4), e.where)
                continue
            args = [strip(a) for a in v.a[1]]
            kw = {k: strip(x) for k, x in (v.a[2] if len(v.a) > 2 else ())}
            full = args + [kw.get(p) for p in f.params[len(args):]]
            R.ob("factory", "arguments", len(full) == 4 and all(a is b for a, b in zip(full, params)), show(v, 4), e.where)
            guards = list(c.guards) + [g]
            st = [x for gg in guards for l in tm.literals(gg) for x in [strip(l)] if x.k == "call" and fname(x) == "startswith"]
            if v.k == "new":
                dflt += 1
                R.ob("factory", "default", "LocalDownloader" in show(v, 2) and not st, show(v, 3), e.where)
            else:
                seen += 1
                ok = any(mentions(s.a[0].a[0], lambda x: x is params[0]) and s.a[1] and same_entry(s.a[1][0], v.a[0]) for s in st)
                R.ob("factory", "chosen by prefix", ok, f"{show(v, 4)} under {'; '.join(show(s, 4) for s in st)}", e.where)
    if not seen or not dflt:
        R.ob("factory", "get_downloader", None, "form not recognised", f.where)
    # constructors keep their arguments
    for cls in [P.cls(DL + "Downloader")] + P.cls(DL + "Downloader").all_subclasses():
        init = cls.methods.get("__init__")
        if init is None:
            continue
        R.unit(init.qual)
        seq, ev = evaluate(P, init, policy=lambda *a: False)
        ps = [mk("param", p) for p in init.params[1:5]]
        sup = [e for e, c in flow.walk(seq) if e.kind == "call" and e.name == "__init__"]
        if cls.name == "Downloader":
            for attr, p in zip(("_remote_dir", "_cache_dir", "_chunks", "_storage_options"), ps):
                st = [e for e, c in flow.walk(seq) if e.kind == "store" and e.attr == attr]
                R.ob("factory", f"Downloader.{attr}", bool(st) and all(any(strip(a) is p for _, a in galts(e.value)) or mentions(e.value, lambda x: x is p) for e in st), "; ".join(show(e.value, 3) for e in st), init.where)
            continue
        for e in sup:
            full = [strip(a) for a in e.args] + [strip(e.kw[k]) if k in e.kw else None for k in ("remote_dir", "cache_dir", "chunks", "storage_options")[len(e.args):]]
            R.ob("factory", f"{cls.name}: arguments passed on", full == ps, show(e.term, 3), e.where)
        R.must("factory", f"{cls.name}: base constructor called", sup, "super().__init__ is not called", init.where)


def same_entry(k, cls):
    """the prefix and the class are the two halves of one item"""
    k, cls = strip(k), strip(cls)
    if k.k == "sub" and cls.k == "sub":
        return k.a[0] is cls.a[0] and show(k.a[1], 2) == "0" and show(cls.a[1], 2) == "1" or strip(cls.a[1]) is k
    if cls.k == "sub":
        return strip(cls.a[1]) is k
    return k.k == cls.k and k.a[:1] == cls.a[:1] or None


def names(P, R):
    f = P.func(DL + "Downloader.download_chunk_from_index")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"download_file"})
    n = 0
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name == "download_file":
            n += 1
            a = [strip(x) for x in e.args] + [strip(x) for x in e.kw.values()]
            ok = len(a) == 2 and all(x.k == "join" and len(x.a[0]) == 2 for x in a)
            if ok:
                (rd, rn), (ld, ln) = a[0].a[0], a[1].a[0]
                ok = self_attr(strip(rd), "_remote_dir") and self_attr(strip(ld), "_cache_dir") and strip(rn) is strip(ln) and is_key(strip(rn), "filename", lambda b: mentions_attr(b, "_chunks") and mentions_param(b, f.params[1]))
            R.ob("same-name", "remote and local path of a chunk", ok, "; ".join(show(x, 5) for x in a), e.where)
    out = count_paths(seq, lambda e: "d" if e.kind == "call" and e.name == "download_file" else None)
    R.ob("same-name", "each request downloads", n > 0 and all(dict(s).get("d", 0) == 1 for s in out["norm"] | out["ret"]), f"{[dict(s) for s in out['norm'] | out['ret']]}", f.where)
    # the downloader of a config is built for its own directories
    f = P.func("streaming.config.ChunksConfig.__init__")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"get_downloader"}, policy=lambda *a: False)
    gd = [e for e, c in flow.walk(seq) if e.kind == "call" and (e.callee or e.name or "").endswith("get_downloader")]
    R.must("factory", "ChunksConfig: downloader", gd, "no downloader is created", f.where)
    for e in gd:
        a = [strip(x) for x in e.args]
        ok = len(a) >= 3 and a[0] is mk("param", "remote_dir") and a[1] is mk("param", "cache_dir") and (mentions_attr(a[2], "_chunks") or mentions_key(a[2], "chunks"))
        R.ob("factory", "ChunksConfig: directories of the downloader", ok, show(e.term, 4), e.where)


def config(P, R):
    f = P.func("streaming.config.ChunksConfig.download_chunk_from_index")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"try_decompress", "_increment_local_lock"}, policy=lambda *a: False)
    dl = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "download_chunk_from_index" and not e.inlined]
    need(dl, "download in ChunksConfig.download_chunk_from_index")
    for e, c in dl:
        lits = [l for g in c.guards for l in tm.literals(g)]
        kept = any(l.k == "not" and fname(strip(l.a[0])) == "os.path.exists" and mentions_attr(l, "_cache_dir") for l in lits)
        R.ob("present-kept", "ChunksConfig: chunk already in the cache", kept, guards_str(c)[:250], e.where)
        R.ob("same-name", "ChunksConfig: the requested chunk", bool(e.args) and strip(e.args[0]) is mk("param", f.params[1]), show(e.term, 3), e.where)
    # without a file and with a downloader the chunk is downloaded
    def assume(st, cond):
        for l in tm.literals(cond):
            if not_(l).k == "is" and False:
                return None
            if fname(strip(l)) == "os.path.exists":
                return None
            if l.k == "is" and mentions_attr(l, "_downloader") and NONE in l.a:
                return None
            if l.k == "or" and all(fname(strip(x)) == "os.path.exists" for x in l.a[0]):
                return None
        return st

    out = flow.Typestate(lambda st, e: [True] if e.kind == "call" and e.name == "download_chunk_from_index" else [st], assume).run(seq, [False])
    ends = {s for s, *_ in out["norm"] | out["ret"]}
    R.ob("present-kept", "ChunksConfig: a missing chunk is downloaded", ends == {True}, str(ends), f.where)


def indexes(P, R):
    """index.json is fetched from the dataset's address, under its own name, into the directory the downloader was made for"""
    n = 0
    done = set()
    for g, call in call_sites(P, "download_file"):
        if g is None or g.module.name.startswith("litdata.streaming.downloader") or g.qual in done:
            continue
        done.add(g.qual)
        seq, ev = evaluate(P, g, opaque={"get_downloader"}, policy=lambda *a: False)
        for e, c in flow.walk(seq):
            if e.kind != "call" or e.name != "download_file" or e.recv is None or not mentions(e.recv, lambda x: fname(x).endswith("get_downloader")):
                continue
            n += 1
            R.unit(g.qual)
            mk_ = [x for x in subterms(e.recv) if fname(x).endswith("get_downloader")][0]
            a = [strip(x) for x in e.args] + [strip(x) for x in e.kw.values()]
            url, cache = (strip(x) for x in mk_.a[1][:2])
            ok = len(a) == 2 and a[0].k == "join" and a[1].k == "join" and strip(a[0].a[0][0]) is url and strip(a[1].a[0][0]) is cache and a[0].a[0][1:] == a[1].a[0][1:] or None
            if ok is None and len(a) == 2:
                tails = [strip(x.a[0][-1]) if x.k == "join" else x for x in a]
                if tails[0] is not tails[1] or any(x.k == "join" and mentions(x, lambda y: y is (cache if i == 0 else url)) for i, x in enumerate(a)):
                    ok = False
            R.ob("same-name", f"{g.name}: index", ok, "; ".join(show(x, 4) for x in a), e.where)
    need(range(n), "downloads of an index", 2)
