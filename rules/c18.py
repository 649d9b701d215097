"""C18: with encryption on, no sample reaches disk in clear."""
from .common import *

WR = "streaming.writer.BinaryWriter"
IL = "streaming.item_loader."
EN = "utilities.encryption."
SECRET = ("password", "key", "private_key", "fernet", "_password", "_key", "_private_key")


def check(P, R):
    R.rule("handed-on", "the cipher given by the user reaches the writer and the item loader")
    R.rule("sample-level", "at sample level an item is encrypted exactly once before it is kept for a chunk, otherwise it is not encrypted there")
    R.rule("chunk-level", "at chunk level a whole chunk is encrypted exactly once, otherwise it is not encrypted there")
    R.rule("before-compression", "a chunk is encrypted before it is compressed, and nothing else is written")
    R.rule("only-way", "item bytes leave the writer through the chunk only")
    R.rule("sizes", "the recorded size of a chunk is that of the encrypted bytes")
    R.rule("decrypted", "a reader decrypts exactly once, at the recorded level")
    R.rule("refused", "a reader without the right cipher is refused, and so are item loaders that do not decrypt")
    R.rule("secret", "neither password nor key is part of the configuration or of a saved cipher")
    R.rule("mirrored", "decryption uses the key and the parameters of encryption, also after loading")
    R.rule("levels", "a cipher has one of the two levels")
    R.part(P, handed_on, items, chunks, files, only_way, reading, refused, secrets, mirrored, levels)


def is_enc(x):
    return x.k == "call" and x.a[0].k == "meth" and x.a[0].a[1] == "encrypt"


def is_dec(x):
    return x.k == "call" and x.a[0].k == "meth" and x.a[0].a[1] == "decrypt"


def cipher(t):
    """the configured cipher itself"""
    t = strip(t)
    return (t.k == "attr" and t.a[1] in ("_encryption", "encryption")) or (t.k == "param" and t.a[0] == "encryption")


def recorded(t):
    """config['encryption'] / config.get('encryption')"""
    t = strip(t)
    if t.k == "sub":
        return strip(t.a[1]) is const("encryption")
    return t.k == "call" and t.a[0].k == "meth" and t.a[0].a[1] == "get" and t.a[1] and strip(t.a[1][0]) is const("encryption")


def level_of(t):
    """'cipher' / 'config' when t is the level of one of them"""
    if t.k == "attr" and t.a[1] == "level" and cipher(t.a[0]):
        return "cipher"
    if t.k == "sub" and strip(t.a[1]) is const("level") and recorded(t.a[0]):
        return "config"
    return None


def scenario(level):
    """a cipher of this level (None: no cipher), in the writer and in the recorded configuration alike"""
    def atom(t):
        if cipher(t) or recorded(t):
            return level is not None
        if t.k == "is" and NONE in t.a:
            x = strip(t.a[0] if strip(t.a[1]) is NONE else t.a[1])
            if cipher(x) or recorded(x):
                return level is None
        if t.k == "in" and strip(t.a[0]) is const("encryption"):
            return True
        c = enc_compares(t)
        if c and level_of(strip(c[0])):
            return c[1] == level if level is not None else None
        if t.k == "in" and level_of(strip(t.a[0])) and level is not None and strip(t.a[1]).k in ("tuple", "list", "set"):
            return any(x.k == "const" and eval_str(x) == level for x in strip(t.a[1]).a[0])
        return None
    return atom


def depth(t, pred):
    """(least, most) number of nested calls satisfying pred on the way from a leaf to the root of t"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        memo[x] = 0
        own = 1 if pred(x) else 0
        below = max([go(y) for y in tm.children(x)] or [0])
        memo[x] = own + below
        return own + below
    return go(t)


# ------------------------------------------------------------------ writing
def handed_on(P, R):
    def skip(f, t):
        # the caches made to merge or upload an index hold no samples
        return f.name in ("_done", "_upload_index") and t.qual.endswith("Cache.__init__")
    n = wired(P, R, "handed-on", "encryption", skip=skip)
    need(range(n), "calls that take a cipher", 5)
    f = P.func("processing.data_processor.BaseWorker._create_cache")
    R.unit(f.qual)
    init = P.cls("streaming.cache.Cache").find("__init__")
    es = [e for e, c in own_events(P, f) if e.kind == "call" and (e.callee or "").endswith("Cache")]
    need(es, "cache made by a worker")
    for e in es:
        v = (passed(e, init) or {}).get("encryption")
        R.ob("handed-on", "BaseWorker._create_cache -> Cache", v is not None and strip(v).k == "attr" and strip(v).a[1] == "encryption" and mentions_attr(v, "data_recipe"), show(v, 3) if v is not None else "not passed", e.where)
    for cls, attr in ((WR, "_encryption"), ("streaming.reader.BinaryReader", "_encryption"), ("streaming.dataset.StreamingDataset", "_encryption"), ("processing.data_processor.DataChunkRecipe", "encryption")):
        c = P.cls(cls)
        for q, m in sorted(P.funcs.items()):
            if m.cls is None or not m.cls.is_sub(c.name):
                continue
            for e, _ in own_events(P, m):
                if e.kind == "store" and e.attr == attr and strip(e.base).k == "self":
                    v = strip(e.value)
                    R.ob("handed-on", f"{c.name}.{attr} set by {m.name}", v.k == "param" and v.a[0] == "encryption", show(v, 3), e.where)
    f = P.func("streaming.reader.BinaryReader.read")
    R.unit(f.qual)
    base = P.cls(IL + "BaseItemLoader")
    takes = [c for c in base.all_subclasses() if "encryption" in c.find("load_item_from_chunk").params]
    need(takes, "item loaders that take a cipher")
    seq, ev = evaluate(P, f, opaque={"load_item_from_chunk", "_try_load_config", "config", "_get_chunk_index_from_index"})
    loads = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "load_item_from_chunk"]
    need(loads, "loads of an item")
    for e, c in loads:
        given = any(cipher(a) for a in list(e.args) + [v for _, v in (e.kw or {}).items()])
        for lc in takes:
            def atom(t, lc=lc):
                return loader_is(P, t, lc)
            if any(truth3(g, atom) is False for g in c.guards):
                continue
            R.ob("handed-on", f"BinaryReader.read -> {lc.name}", given, "the loader gets no cipher", e.where)


def loader_is(P, t, cls):
    """isinstance tests of the item loader, for a loader of class cls"""
    if t.k == "param" and t.a[0] == "item_loader":
        return True
    if t.k == "isinst" and (mentions_attr(t.a[0], "_item_loader", "item_loader") or mentions_param(t.a[0], "item_loader")):
        return inst(P, t.a[1], cls)
    if t.k == "eq" and any(mentions_attr(x, "__class__") or mentions_attr(x, "__name__") for x in t.a):
        for x in t.a:
            if x.k == "const" and x.a[0] == "str":
                return eval_str(x) == cls.name
    return None


def inst(P, c, cls):
    c = strip(c)
    if c.k in ("tuple", "list"):
        vs = [inst(P, x, cls) for x in c.a[0]]
        return True if True in vs else (None if None in vs else False)
    name = show(c, 3).split(".")[-1]
    return any(b.name == name for b in cls.mro()) if any(k.name == name for k in P.classes.values()) else None


def items(P, R):
    """values kept for the chunks"""
    n = 0
    for q, f in sorted(P.funcs.items()):
        if f.cls is None or not f.cls.is_sub(P.cls(WR).name):
            continue
        if not any(isinstance(x, ast.Attribute) and x.attr == "_serialized_items" for x in P.nodes(f)):
            continue
        seq, ev = evaluate(P, f, opaque={"serialize", "_should_write", "write_chunk", "get_chunk_filename"})
        for e, c in flow.walk(seq):
            if e.kind != "setitem" or root_attr(strip(e.base)) != "_serialized_items":
                continue
            R.unit(f.qual)
            n += 1
            for level in ("sample", "chunk", None):
                atom = scenario(level)
                if any(truth3(g, atom) is False for g in c.guards):
                    continue
                v = spec(e.value, atom)
                dat = field(v, "data")
                if dat is None:
                    R.ob("sample-level", f"{f.name}: level {level}", None, show(v, 4), e.where)
                    continue
                d = depth(dat, is_enc)
                want = 1 if level == "sample" else 0
                ok = d == want and (want == 0 or (is_enc(dat) and cipher(dat.a[0].a[0]) and len(dat.a[1]) == 1))
                R.ob("sample-level", f"{f.name}: level {level}", ok, f"kept as {show(dat, 4)}", e.where)
                b = field(v, "bytes")
                if b is not None and b.k == "call" and fname(b) == "len":
                    R.ob("sizes", f"{f.name}: level {level}", strip(b.a[1][0]) is strip(dat), f"{show(b, 4)} of {show(dat, 4)}", e.where)
    need(range(n), "items kept for a chunk")


def field(v, name):
    """field of a made Item"""
    v = strip(v)
    if v.k == "new":
        kw = v.a[2]
        for k, x in (kw.items() if isinstance(kw, dict) else kw):
            if (eval_str(k) if isinstance(k, T) else k) == name:
                return strip(x)
        order = ("index", "data", "bytes", "dim")
        if name in order and len(v.a[1]) > order.index(name):
            return strip(v.a[1][order.index(name)])
    return None


def chunks(P, R):
    f = P.func(f"{WR}._create_chunk")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"_pretty_serialized_items"})
    ret = ev.ret
    for level in ("sample", "chunk", None):
        atom = scenario(level)
        v = spec(ret, atom)
        d = depth(v, is_enc)
        want = 1 if level == "chunk" else 0
        ok = d == want and (want == 0 or (is_enc(v) and cipher(v.a[0].a[0])))
        if v.k == "ite":
            ok = all(depth(x, is_enc) == want and (want == 0 or is_enc(strip(x))) for _, x in galts(v))
        R.ob("chunk-level", f"_create_chunk: level {level}", ok, f"returns {show(v, 3)}", f.where)
        if want and is_enc(v):
            a = v.a[1][0]
            R.ob("chunk-level", "the whole chunk", mentions_attr(a, "data") and mentions_call(a, "tobytes", "pack", "to_bytes"), show(a, 4), f.where)
        for e, c in flow.walk(seq):
            if e.kind == "call" and e.name == "append" and mentions_attr(e.fn, "_chunks_info") and e.args:
                n = dict_get(strip(spec(e.args[0], atom)), "chunk_bytes")
                if n is None:
                    continue
                R.ob("sizes", f"chunk_bytes: level {level}", n.k == "call" and fname(n) == "len" and strip(n.a[1][0]) is strip(v) if n.k == "call" else None, show(n, 3), e.where)


def files(P, R):
    f = P.func(f"{WR}.write_chunk_to_file")
    R.unit(f.qual)
    n = 0
    for q, g in sorted(P.funcs.items()):
        if g.module.name != "litdata.streaming.writer":
            continue
        for e, c in own_events(P, g):
            w = writes_to(e)
            if w is None or not e.args:
                continue
            v = strip(e.args[0])
            path, mode = file_of(e.recv) if e.recv is not None else (None, None)
            m = eval_str(mode) if mode is not None and is_const(strip(mode)) else None
            if not (isinstance(m, str) and "b" in m):
                continue
            n += 1
            R.unit(g.qual)
            ok = True
            for cond, x in galts(v):
                x = strip(x)
                while x.k == "call" and x.a[0].k == "meth" and x.a[0].a[1] == "compress" and len(x.a[1]) == 1:
                    x = strip(x.a[1][0])
                if x.k != "param":
                    ok = False if is_enc(x) or mentions_attr(x, "_serialized_items") else None
            R.ob("before-compression", f"{g.name}: written", ok, show(v, 4), e.where)
    need(range(n), "chunks written")
    callers = 0
    for q, g in sorted(P.funcs.items()):
        for e, c in own_events(P, g, opaque=("_create_chunk",)):
            if e.kind == "call" and e.name == "write_chunk_to_file":
                callers += 1
                a = passed(e, f) or {}
                v = strip(a.get(f.params[1])) if a.get(f.params[1]) is not None else None
                ok = v is not None and v.k == "call" and mentions_call(v, "_create_chunk")
                if v is not None and not ok and mentions_attr(v, "data") and mentions(v, is_enc):
                    ok = None
                R.ob("before-compression", f"{g.name}: handed over", ok, show(v, 3) if v is not None else "", e.where)
    need(range(callers), "chunks handed over to be written")


def only_way(P, R):
    """the data of kept items is read where a chunk is made only"""
    allowed = {f"{WR}._create_chunk"}
    n = 0
    for q, f in sorted(P.funcs.items()):
        if f.module.name != "litdata.streaming.writer":
            continue
        reads = [x for x in P.nodes(f) if isinstance(x, ast.Attribute) and x.attr == "data" and isinstance(x.ctx, ast.Load)
                 and not (isinstance(x.value, ast.Name) and x.value.id in ("self", "torch", "np"))]
        for x in reads:
            n += 1
            short = q[len("litdata."):]
            ok = short in allowed or called_from(P, f, allowed)
            if not ok and all(isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == "len" for p in parents(f.node, x)):
                ok = True
            R.ob("only-way", f"{f.name}", ok, f"reads the data of an item ({ast.unparse(x)})", f"{f.where.rsplit(':', 1)[0]}:{x.lineno}")
    need(range(n), "reads of item data")


def parents(root, node):
    return [p for p in ast.walk(root) if any(c is node for c in ast.iter_child_nodes(p))]


def called_from(P, f, allowed, seen=()):
    callers = {g.qual[len("litdata."):] if g.qual.startswith("litdata.") else g.qual for g, n in call_sites(P, f.name)}
    if not callers or f.qual in seen:
        return False
    return all(c in allowed or (P.funcs.get("litdata." + c) is not None and called_from(P, P.funcs["litdata." + c], allowed, seen + (f.qual,))) for c in callers)


# ------------------------------------------------------------------ reading
def reading(P, R):
    base = P.cls(IL + "BaseItemLoader")
    n = 0
    for c in base.all_subclasses():
        f = c.find("load_item_from_chunk")
        if "encryption" not in f.params or f.cls is not c:
            continue
        n += 1
        R.unit(f.qual)
        seq, ev = evaluate(P, f, opaque={"deserialize", "mds_deserialize", "force_download"}, self_cls=c)
        ds = [(e, cx) for e, cx in flow.walk(seq) if e.kind == "call" and e.name in ("deserialize", "mds_deserialize") and e.args]
        need(ds, "items rebuilt")
        for level in ("sample", "chunk", None):
            atom = scenario(level)

            def atom2(t, atom=atom):
                v = atom(t)
                if v is not None:
                    return v
                c = enc_compares(t)
                if c and mentions_attr(c[0], "algorithm"):
                    return None
                return None
            for e, cx in ds:
                if any(truth3(g, atom2) is False for g in cx.guards):
                    continue
                v = strip(spec(e.args[0], atom2))
                R.ob("decrypted", f"{c.name}.{e.name}: level {level}", decrypted(v, level), f"{show(v, 5)}", e.where)
        for e, cx in flow.walk(seq):
            if e.kind == "call" and e.name == "decrypt":
                R.ob("decrypted", f"{c.name}: cipher of the user", cipher(e.recv), show(e.recv, 3), e.where)
                if e.args and mentions_call(e.args[0], "decrypt"):
                    R.ob("decrypted", f"{c.name}: once", False, "decrypted twice", e.where)
        # the kept decrypted chunk is the one asked for
        for e, cx in flow.walk(seq):
            if e.kind in ("store", "setitem") and mentions(e.value, is_dec):
                if e.kind == "store":
                    d = strip(e.value)
                    keys = [strip(k) for k, _ in d.a[0]] if d.k == "dict" else []
                    attr = e.attr
                else:
                    keys, attr = [strip(e.idx)], root_attr(strip(e.base))
                looks = [strip(x) for y, _ in flow.walk(seq) if y.kind == "call" and y.name == "get" and y.args and root_attr(strip(y.recv)) == attr for x in y.args[:1]]
                ok = bool(keys) and all(k.k == "param" and k.a[0] in ("chunk_index", "chunk_filepath") for k in keys) and all(x in keys for x in looks)
                R.ob("decrypted", f"{c.name}: decrypted chunks are kept by chunk", ok if keys else None, ", ".join(show(k, 3) for k in keys), e.where)
        # refusing a wrong cipher
        for what, at in (("no cipher", wrong(None)), ("another algorithm", wrong("algorithm")), ("another level", wrong("level"))):
            seen = []

            def step(st, e):
                if e.kind == "call" and e.name == "decrypt":
                    seen.append(e)
                return [st]
            out = flow.Typestate(step, under(at)).run(seq, [0])
            ends = out["norm"] | out["ret"]
            R.ob("refused", f"{c.name}: {what}", not ends and not seen, "data are decrypted or returned with it", seen[0].where if seen else f.where)
    need(range(n), "item loaders that decrypt")


def wrong(what):
    """an encrypted dataset and: no cipher / a cipher of another algorithm / of another level"""
    def atom(t):
        if recorded(t):
            return True
        if cipher(t):
            return what is not None
        if t.k == "is" and NONE in t.a:
            x = strip(t.a[0] if strip(t.a[1]) is NONE else t.a[1])
            if cipher(x):
                return what is None
            if recorded(x):
                return False
        if t.k == "in" and strip(t.a[0]) is const("encryption"):
            return True
        if t.k == "eq" and what is not None:
            sides = [strip(x) for x in t.a]
            for name in ("algorithm", "level"):
                mine = [x for x in sides if x.k == "attr" and x.a[1] == name and cipher(x.a[0])]
                rec = [x for x in sides if x.k == "sub" and strip(x.a[1]) is const(name) and recorded(x.a[0])]
                if mine and rec:
                    return name != what
        return None
    return atom


def decrypted(v, level):
    """v: bytes an item is rebuilt from"""
    if v.k == "ite":
        rs = [decrypted(strip(x), level) for _, x in galts(v)]
        return False if False in rs else (None if None in rs else True)
    d = depth(v, is_dec)
    is_store = lambda x: x.k == "attr" and "decrypted" in x.a[1]
    kept = mentions(v, is_store)
    for x in subterms(v):
        if any(is_store(y) for y in tm.children(x)) and not by_chunk(x):
            return False
    if level is None:
        return d == 0 and not kept
    if level == "sample":
        return d == 1 and is_dec(v)
    # chunk level: an item is cut out of the decrypted chunk
    if is_dec(v):
        return False
    return d <= 1 and (d == 1 or kept)


def by_chunk(x):
    """a read of one entry of the kept chunks, by the chunk"""
    key = None
    if x.k == "sub":
        key = x.a[1]
    elif x.k == "meth" and x.a[1] in ("get", "pop", "__getitem__"):
        return True
    elif x.k == "in":
        key = x.a[0]
    elif x.k in ("upd", "not", "and", "or", "ite", "mut"):
        return True
    return key is not None and strip(key).k == "param" and strip(key).a[0] in ("chunk_index", "chunk_filepath")


def refused(P, R):
    base = P.cls(IL + "BaseItemLoader")
    f = P.func("streaming.config.ChunksConfig._validate_item_loader")
    init = P.func("streaming.config.ChunksConfig.__init__")
    R.unit(f.qual)
    R.unit(init.qual)
    seq, ev = evaluate(P, init, opaque={"setup", "generate_intervals", "load_subsampled_chunks", "load_index_file", "get_downloader"})
    w = P.func(f"{WR}.__init__")
    R.unit(w.qual)
    wseq, _ = evaluate(P, w)
    for c in base.all_subclasses():
        if "encryption" in c.find("load_item_from_chunk").params:
            continue

        def atom(t, c=c):
            if cipher(t) or recorded(t):
                return True
            if t.k == "is" and NONE in t.a:
                x = strip(t.a[0] if strip(t.a[1]) is NONE else t.a[1])
                if cipher(x) or recorded(x):
                    return False
            if t.k == "in" and strip(t.a[0]) is const("encryption"):
                return True
            return loader_is(P, t, c)
        out = flow.Typestate(lambda st, e: [st], under(atom)).run(seq, [0])
        R.ob("refused", f"reading encrypted data with {c.name}", not (out["norm"] | out["ret"]), "the loader does not decrypt and is accepted", f.where)
        out = flow.Typestate(lambda st, e: [st], under(atom)).run(wseq, [0])
        R.ob("refused", f"encrypting data for {c.name}", not (out["norm"] | out["ret"]), "what is written can't be read back", w.where)


# ------------------------------------------------------------------ ciphers
def ciphers(P):
    return need(P.cls(EN + "Encryption").all_subclasses(), "ciphers", 2)


def leaks(t):
    """reads of a secret in t that are not protected by a derivation or by the password"""
    out = []

    def go(x):
        if x.k == "call":
            n = (x.a[0].a[1] if x.a[0].k == "meth" else fname(x).split(".")[-1])
            if n in ("BestAvailableEncryption", "encrypt", "bool"):
                return
            if n in ("private_bytes",):
                kw = dict((eval_str(k) if isinstance(k, T) else k, v) for k, v in (x.a[2].items() if isinstance(x.a[2], dict) else x.a[2]))
                alg = kw.get("encryption_algorithm") or (x.a[1][2] if len(x.a[1]) > 2 else None)
                if alg is not None and mentions_call(alg, "BestAvailableEncryption"):
                    return
                out.append(x)
                return
        if x.k == "ite":
            go(x.a[1])
            go(x.a[2])
            return
        if x.k == "attr" and x.a[1] in SECRET and strip(x.a[0]).k in ("self", "param", "new", "call"):
            out.append(x)
            return
        if x.k == "comp":
            # a copy that leaves some keys out
            left = {eval_str(y) for _, c in x.a[2] if c is not None for y in subterms(strip(c)) if y.k == "const" and y.a[0] == "str"}
            for y in leaks_in(x):
                if not (y.k == "attr" and y.a[1].lstrip("_") in left):
                    out.append(y)
            return
        for y in tm.children(x):
            go(y)
    go(strip(t))
    return out


def leaks_in(x):
    return [z for y in tm.children(x) for z in leaks(y)]


def secrets(P, R):
    for c in ciphers(P):
        f = c.find("state_dict")
        R.unit(f.qual)
        seq, ev = evaluate(P, f, self_cls=c)
        bad = leaks(ev.ret)
        R.ob("secret", f"{c.name}.state_dict", not bad, ", ".join(show(x, 3) for x in bad), f.where)
        for k in ("algorithm", "level"):
            v = dict_get(strip(ev.ret), k)
            R.ob("secret", f"{c.name}.state_dict: {k}", v is not None or None, "the reader compares it", f.where)
        for name, m in sorted(c.methods.items()):
            if not name.startswith("save"):
                continue
            R.unit(m.qual)
            seq, ev = evaluate(P, m, self_cls=c)
            n = 0
            for e, cx in flow.walk(seq):
                ws = []
                if e.kind == "call" and e.name in ("write", "write_text", "write_bytes", "writelines") and e.args:
                    ws = [e.args[0]]
                elif e.kind == "call" and e.name == "dump" and e.args:
                    ws = [e.args[0]]
                for v in ws:
                    n += 1
                    bad = leaks(v)
                    R.ob("secret", f"{c.name}.{name}", not bad, "written: " + ", ".join(show(x, 3) for x in bad), e.where)
            need(range(n), f"bytes written by {c.name}.{name}")
    for q in (f"{WR}.get_config",):
        f = P.func(q)
        R.unit(f.qual)
        seq, ev = evaluate(P, f, opaque={"state_dict"})
        vs = [dict_get(strip(v), "encryption") for _, v in galts(ev.ret)]
        vs = [v for v in vs if v is not None]
        need(vs, "encryption entry of the index")
        for v in vs:
            for level, want in (("sample", True), (None, False)):
                x = strip(spec(v, scenario(level)))
                ok = (x.k == "call" and x.a[0].k == "meth" and x.a[0].a[1] == "state_dict" and cipher(x.a[0].a[0])) if want else x is NONE
                if not ok and x.k == "dict" and want:
                    ok = not leaks(x)
                R.ob("secret", f"get_config: {'with' if want else 'without'} a cipher", ok, show(x, 3), f.where)
    # nothing else of a cipher is written by the processing code
    for q, f in sorted(P.funcs.items()):
        if f.module.name == "litdata.utilities.encryption":
            continue
        for x in P.nodes(f):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Attribute) and x.value.attr in ("_encryption", "encryption") and isinstance(x.ctx, ast.Load):
                R.ob("secret", f"{f.name}: {x.attr}", x.attr not in SECRET and x.attr != "__dict__", f"reads {ast.unparse(x)}", f"{f.where.rsplit(':', 1)[0]}:{x.lineno}")


def mirrored(P, R):
    for c in ciphers(P):
        fe, fd = c.find("encrypt"), c.find("decrypt")
        R.unit(fe.qual)
        R.unit(fd.qual)
        _, ee = evaluate(P, fe, self_cls=c)
        _, ed = evaluate(P, fd, self_cls=c)
        te, td = strip(ee.ret), strip(ed.ret)
        ok_e = is_enc(te) and len(te.a[1]) >= 1 and strip(te.a[1][0]).k == "param"
        ok_d = is_dec(td) and len(td.a[1]) >= 1 and strip(td.a[1][0]).k == "param"
        R.ob("mirrored", f"{c.name}: encrypts the data", ok_e or (None if mentions(te, is_enc) else False), show(te, 3), fe.where)
        R.ob("mirrored", f"{c.name}: decrypts the data", ok_d or (None if mentions(td, is_dec) else False), show(td, 3), fd.where)
        if ok_e and ok_d:
            pe, pd = (te.a[1][1:], te.a[2]), (td.a[1][1:], td.a[2])
            R.ob("mirrored", f"{c.name}: parameters", norm(pe) == norm(pd), f"{show(te, 5)} / {show(td, 5)}", fd.where)
            ke, kd = strip(te.a[0].a[0]), strip(td.a[0].a[0])
            ok = ke is kd or (ke.k == kd.k == "attr" and {ke.a[1], kd.a[1]} == {"public_key", "private_key"} and ke.a[1] == "public_key")
            R.ob("mirrored", f"{c.name}: key", ok, f"{show(ke, 3)} / {show(kd, 3)}", fd.where)
        f = c.methods.get("load")
        if f is None:
            continue
        R.unit(f.qual)
        seq, ev = evaluate(P, f, opaque={"__setstate__"})
        ret = strip(ev.ret)
        # the password of the caller, the rest from the file
        given = False
        for e, cx in flow.walk(seq):
            if e.kind == "call" and e.name == "__setstate__" and e.args:
                v = dict_get(strip(e.args[0]), "password")
                if v is None:
                    sets = [y.value for y, _ in flow.walk(seq) if y.kind == "setitem" and strip(y.idx) is const("password") and strip(y.base) is strip(e.args[0])]
                    v = strip(sets[-1]) if sets else None
                given = True
                R.ob("mirrored", f"{c.name}.load: the password is the one given", v is not None and strip(v).k == "param" and strip(v).a[0] == "password", show(v, 3) if v is not None else f"taken from {show(e.args[0], 3)}", e.where)
            if e.kind == "store" and e.attr in ("fernet", "key"):
                ok = mentions_param(e.value, "password") and mentions_key(strip(e.value), "salt") and mentions_call(e.value, "load", "loads")
                given = True
                R.ob("mirrored", f"{c.name}.load: {e.attr}", ok, show(e.value, 6), e.where)
        R.ob("mirrored", f"{c.name}.load", given or None, "nothing is restored", f.where)
        if ret.k in ("new", "call"):
            lv = [x for x in subterms(ret) if x.k == "sub" and strip(x.a[1]) is const("level")]
            R.ob("mirrored", f"{c.name}.load: level", bool(lv) or None, show(ret, 3), f.where)
        if "fernet" in {e.attr for e, _ in own_events(P, c.find("__init__")) if e.kind == "store"}:
            # key derivation: constructor and load alike
            dk = c.find("_derive_key")
            if dk is not None:
                ie, _ = evaluate(P, c.find("__init__"), self_cls=c)
                ks = [strip(e.value) for e, _ in flow.walk(ie) if e.kind == "store" and e.attr == "fernet"]
                ls = [strip(e.value) for e, _ in flow.walk(seq) if e.kind == "store" and e.attr == "fernet"]
                same = bool(ks) and bool(ls) and shape(ks[-1]) == shape(ls[-1])
                R.ob("mirrored", f"{c.name}.load: same derivation", same or None if not (ks and ls) else same, f"{show(ks[-1], 5) if ks else ''} / {show(ls[-1], 5) if ls else ''}", f.where)
                sv = c.find("save")
                ss, _ = evaluate(P, sv, self_cls=c)
                ok = any(e.kind == "call" and e.name in ("write", "dump", "write_text", "write_bytes") and e.args and mentions_attr(e.args[0], "salt") for e, _ in flow.walk(ss))
                R.ob("mirrored", f"{c.name}.save: salt", ok, "the key can't be derived again without it", sv.where)


def norm(p):
    args, kw = p
    return (tuple(show(strip(a), 9) for a in args), tuple(sorted((str(k), show(strip(v), 9)) for k, v in (kw.items() if isinstance(kw, dict) else kw))))


def shape(t):
    """the derivation without what it is applied to"""
    out = set()
    for x in subterms(t):
        if x.k == "call" and mentions_call(x, "Fernet", "PBKDF2HMAC", "derive"):
            out.add((fname(x) if x.a[0].k != "meth" else x.a[0].a[1]))
        if x.k == "call" and fname(x).endswith("PBKDF2HMAC"):
            kw = x.a[2].items() if isinstance(x.a[2], dict) else x.a[2]
            out.add(tuple(sorted((str(k), show(strip(v), 6)) for k, v in kw if "salt" not in str(k))))
    return out


def levels(P, R):
    for c in ciphers(P):
        f = c.find("__init__")
        R.unit(f.qual)
        seq, ev = evaluate(P, f, self_cls=c)
        st = [e for e, _ in flow.walk(seq) if e.kind == "store" and e.attr == "level"]
        need(st, f"level of {c.name}")
        for e in st:
            v = strip(e.value)
            R.ob("levels", f"{c.name}: kept", v.k == "param" and v.a[0] == "level", show(v, 3), e.where)

        def atom(t):
            if t.k == "in" and strip(t.a[0]).k == "param" and strip(t.a[0]).a[0] == "level":
                return False
            x = enc_compares(t)
            if x and strip(x[0]).k == "param" and strip(x[0]).a[0] == "level":
                return False
            return None
        out = flow.Typestate(lambda s, e: [s], under(atom)).run(seq, [0])
        R.ob("levels", f"{c.name}: checked", not (out["norm"] | out["ret"]), "any other level leaves the data in clear", f.where)
