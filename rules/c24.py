"""C24: compressed data is read back through the algorithm it was written with."""
from .common import *
from .c23 import excluded

S = "streaming."
CO = S + "compression."
WR = S + "writer.BinaryWriter"
CF = S + "config.ChunksConfig"
NAMES = ("compression", "_compression", "_compressor_name")


def check(P, R):
    R.rule("registered", "a name stands for the algorithm and the level it spells, and is known only where the package is installed")
    R.rule("inverse", "a compressor decompresses with the package it compresses with, the whole of the data")
    R.rule("refused", "a compression that isn't available is refused before anything is written or read")
    R.rule("same", "the compressor used is the one registered under the name given (writer) or recorded in the index (reader)")
    R.rule("recorded", "the name recorded in the index and in the file names is that of the compressor applied to the chunks")
    R.rule("once", "a chunk is compressed exactly once when written and decompressed exactly once before it is read")
    R.rule("named", "the decompressed file has the name of the chunk without that of the compression, in the same folder")
    R.rule("handed-on", "the compression asked for reaches the writer")
    R.part(P, registered, inverse, refused, same, recorded, once_written, decompressed, fetched, named, asked, handed_on)


def is_registry(t):
    t = strip(t)
    return dotted(t).endswith("_COMPRESSORS") or (t.k in ("glob", "mod", "ext", "global") and str(t.a[-1]).endswith("_COMPRESSORS"))


def is_name(t):
    """the name of the compression of this object, or the one recorded in an index"""
    t = strip(t)
    return (t.k == "attr" and t.a[1] in NAMES) or (t.k == "param" and t.a[0] in NAMES) or (t.k == "sub" and strip(t.a[1]) is const("compression")) or (
        t.k == "call" and t.a[0].k == "meth" and t.a[0].a[1] == "get" and t.a[1] and strip(t.a[1][0]) is const("compression"))


def is_compressor(t):
    t = strip(t)
    return (t.k == "attr" and t.a[1] == "_compressor") or lookup(t) is not None


def lookup(t):
    """the key of a look-up in the registry"""
    t = strip(t)
    if t.k == "sub" and is_registry(t.a[0]):
        return strip(t.a[1])
    if t.k == "call" and t.a[0].k == "meth" and t.a[0].a[1] in ("get", "pop") and is_registry(t.a[0].a[0]) and t.a[1]:
        return strip(t.a[1][0])
    return None


def scenario(compressed, known=True, extra=lambda t: None):
    """no compression / one that is registered / one that isn't"""
    def atom(t):
        t = strip(t)
        v = extra(t)
        if v is not None:
            return v
        if is_name(t) or is_compressor(t):
            return compressed
        if t.k in ("is", "eq") and len(t.a) == 2:
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                x, y = strip(x), strip(y)
                if (is_name(x) or is_compressor(x)) and y is NONE:
                    return not compressed
                if is_name(x) and is_const(y) and y.a[1] == "":
                    return False if compressed else None
                if x.k == "call" and fname(x) == "len" and x.a[1] and is_registry(x.a[1][0]) and is_const(y) and y.a[1] == 0:
                    return False if known else None
        if t.k == "in" and is_registry(t.a[1]) and is_name(t.a[0]):
            return known
        if is_registry(t):
            return True if known else None
        return None
    return atom


def families(P):
    base = P.cls(CO + "Compressor")
    return [c for c in base.all_subclasses()]


# ------------------------------------------------------------------ the registry
def registered(P, R):
    regs = 0
    for c in need(families(P), "compressors"):
        m = c.find("register")
        R.unit(m.qual)
        seq, ev = evaluate(P, m, self_cls=c, policy=lambda *a: False)
        ini = c.find("__init__")
        _, _ = None, None
        iseq, iev = evaluate(P, ini, self_cls=c, policy=lambda *a: False)
        stores = {e.attr: strip(e.value) for e, _ in flow.walk(iseq) if e.kind == "store" and strip(e.base).k == "self"}
        ext = {eval_str(v) for v in stores.values() if is_const(v) and isinstance(eval_str(v), str)}
        lvl = {a: v.a[0] for a, v in stores.items() if v.k == "param"}
        nk = 0
        for e, ctx in flow.walk(seq):
            if e.kind != "setitem" or "compressors" not in show(e.base, 9) and not is_registry(e.base):
                continue
            nk += 1
            k, v = strip(e.idx), strip(e.value)
            what = f"{c.name}: {show(k, 3)}"
            if v.k != "new" and not (v.k == "call" and fname(v).split(".")[-1] == c.name):
                R.ob("registered", what, None if v.k in ("call", "phi", "elem") else False, f"stands for {show(v, 3)}", e.where)
                continue
            cls_name = show(v.a[0], 3).split(".")[-1]
            kargs = dict(v.a[2]) if len(v.a) > 2 and v.a[2] else {}
            level = strip(v.a[1][0]) if v.a[1] else strip(kargs["level"]) if "level" in kargs else None
            okc = cls_name == c.name or cls_name == "cls"
            if is_const(k) and isinstance(eval_str(k), str):
                algo, _, lev = eval_str(k).partition(":")
                ok = okc and algo in ext and (not lev or (level is not None and is_const(level) and str(level.a[1]) == lev))
            elif k.k == "cat" and len(k.a[0]) >= 2:
                parts = [strip(x) for x in k.a[0]]
                parts = [strip(x.a[1][0]) if x.k == "call" and fname(x) == "str" and len(x.a[1]) == 1 else x for x in parts]
                head = eval_str(parts[0]) if is_const(parts[0]) else None
                ok = okc and isinstance(head, str) and head.endswith(":") and head[:-1] in ext and len(parts) == 2 and parts[1] is level
                if not ok and not isinstance(head, str):
                    ok = None
            else:
                ok = None
            R.ob("registered", what, ok, f"stands for {show(v, 4)}", e.where)
            if any(lp for lp in ctx.loops):
                lp = ctx.loops[-1]
                it = strip(peel(lp.iter)) if lp.iter is not None else None
                if it is not None and it.k == "call" and fname(it) == "range" and all(is_const(strip(x)) for x in it.a[1]):
                    r = range(*[strip(x).a[1] for x in it.a[1]])
                    R.ob("registered", f"{c.name}: levels", set(r) >= set(range(1, 23)), f"levels {list(r)[:1]}..{list(r)[-1:]}, 1..22 are documented", e.where)
        need(range(nk), f"names registered by {c.name}")
        # only where it is available
        got = []

        def absent(t):
            t = strip(t)
            return False if dotted(t).endswith("_AVAILABLE") or (t.k in ("glob", "mod", "ext") and str(t.a[-1]).endswith("_AVAILABLE")) else None

        def step(st, e):
            if e.kind == "setitem":
                got.append(e)
            return [st]

        flow.Typestate(step, under(absent)).run(seq, ["-"])
        R.ob("registered", f"{c.name}: package not installed", not got, "registered although it can't be used", got[0].where if got else m.where)
        # registered at import
        for x in ast.walk(P.modules["litdata." + CO[:-1]].tree):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "register" and ast.unparse(x.func.value) == c.name:
                regs += 1
    R.ob("registered", "registered at import", regs >= len(families(P)) or (None if any("register" in ast.unparse(x) for x in P.modules["litdata." + CO[:-1]].tree.body if not isinstance(x, ast.ClassDef)) else False),
         f"{regs} of {len(families(P))} families", "streaming/compression.py")


def module_of(t):
    t = strip(t)
    n = dotted(t.a[0]) if t.k == "call" else ""
    return n.rsplit(".", 1)[0] if "." in n else n


def inverse(P, R):
    for c in need(families(P), "compressors"):
        fc, fd = c.find("compress"), c.find("decompress")
        rc, rd = evaluate(P, fc, self_cls=c)[1].ret, evaluate(P, fd, self_cls=c)[1].ret
        got = {}
        for f, r, what in ((fc, rc, "compress"), (fd, rd, "decompress")):
            R.unit(f.qual)
            for g, v in galts(r):
                v = strip(v)
                data = f.params[1] if len(f.params) > 1 else "data"
                if v.k != "call":
                    ok = False if v.k == "param" or v is NONE else None
                else:
                    n = fname(v).split(".")[-1]
                    whole = bool(v.a[1]) and strip(v.a[1][0]).k == "param" and strip(v.a[1][0]).a[0] == data
                    ok = whole if n == what else (False if n in ("compress", "decompress") else None)
                    if ok is False and v.a[1] and not mentions(v.a[1][0], lambda x: x.k == "slice") and n == what and mentions_param(v.a[1][0], data) and strip(v.a[1][0]).k == "call" and fname(strip(v.a[1][0])) in ("bytes", "memoryview", "bytearray"):
                        ok = True
                    got.setdefault(what, set()).add(module_of(v))
                R.ob("inverse", f"{c.name}.{what}", ok, show(v, 4), f.where)
        if "compress" in got and "decompress" in got and all(m and "." not in m for s in got.values() for m in s):
            R.ob("inverse", f"{c.name}: same package", got["compress"] == got["decompress"], f"{sorted(got['compress'])} / {sorted(got['decompress'])}", fd.where)
        # the level of the compressor is the one it was made with
        iseq, _ = evaluate(P, c.find("__init__"), self_cls=c, policy=lambda *a: False)
        for e, _ in flow.walk(iseq):
            if e.kind == "store" and strip(e.base).k == "self" and e.attr == "level":
                v = strip(e.value)
                R.ob("inverse", f"{c.name}.level", v.k == "param" and v.a[0] == "level" or (None if mentions_param(v, "level") and not is_const(v) else False), show(v, 3), e.where)
        v = strip(rc)
        if v.k == "call" and len(v.a[1]) > 1:
            R.ob("inverse", f"{c.name}: level of the compression", is_attr(strip(v.a[1][1]), "level") or (False if is_const(strip(v.a[1][1])) else None), show(v.a[1][1], 3), fc.where)


# ------------------------------------------------------------------ what is accepted
def constructors(P):
    return [(P.func(WR + ".__init__"), "writing"), (P.func(CF + ".__init__"), "reading")]


def nearby(caller, callee, depth):
    """helpers of the same file are looked into"""
    return callee.module is caller.module and depth < 6


def refused(P, R):
    for f, what in constructors(P):
        R.unit(f.qual)
        seq, ev = evaluate(P, f, policy=nearby)

        def step(st, e):
            v = getattr(e, "value", None)
            if e.kind == "store" and v is not None and mentions(v, lambda x: x.k == "sub" and is_registry(x.a[0]) and is_name(x.a[1])):
                return []          # looking up a name that isn't there raises
            return [st]

        out = flow.Typestate(step, under(scenario(True, False))).run(seq, ["-"])
        R.ob("refused", f"{what} with a compression that isn't available", not (out["norm"] | out["ret"]), "it goes on without a compressor", f.where)
        out = flow.Typestate(lambda st, e: [st], under(scenario(True, True))).run(seq, ["-"])
        R.ob("refused", f"{what} with one that is", bool(out["norm"] | out["ret"]), "an available compression is refused", f.where)


def same(P, R):
    for f, what in constructors(P):
        seq, ev = evaluate(P, f, policy=nearby)
        recorded = what == "reading"

        def right(v, atom):
            v = strip(spec(v, atom))
            if v is NONE:
                return "none"
            k = lookup(v)
            if k is None:
                return "other" if v.k == "new" or is_const(v) else "unknown"
            alts = [strip(x) for x in tm.alts(k)]
            if recorded:
                good = all((x.k == "sub" and strip(x.a[1]) is const("compression")) or is_attr(x, "_compressor_name") or
                           (x.k == "call" and x.a[0].k == "meth" and x.a[0].a[1] == "get" and x.a[1] and strip(x.a[1][0]) is const("compression")) for x in alts)
            else:
                good = all((x.k == "param" and x.a[0] == "compression") or is_attr(x, "_compression") for x in alts)
            return "right" if good else "other"

        for comp in (True, False):
            atom = scenario(comp, True)

            def step(st, e):
                if e.kind == "store" and e.attr == "_compressor" and strip(e.base).k == "self":
                    return [right(e.value, atom)]
                return [st]

            out = flow.Typestate(step, under(atom)).run(seq, ["unset"])
            end = {s for s, _ in out["norm"] | out["ret"]}
            if comp:
                ok = end == {"right"}
            else:
                ok = end <= ({"none"} if recorded else {"none", "unset"})
            R.ob("same", f"{what}, {'' if comp else 'not '}compressed", ok if not ("unknown" in end) else None, f"compressor at the end: {sorted(end)}", f.where)
    # nobody else sets the names or the compressor
    for q, f in sorted(P.funcs.items()):
        for e, c in own_events(P, f):
            if e.kind != "store" or e.attr not in ("_compressor", "_compressor_name", "_compression") or c.inside:
                continue
            v = strip(e.value)
            if e.attr == "_compressor":
                if f.name != "__init__":
                    R.ob("same", f"{f.name} sets _compressor", None if lookup(v) is not None else False, show(v, 4), e.where)
                continue
            ok = (v.k == "param" and v.a[0] == "compression") if e.attr == "_compression" else is_name(v)
            if not ok and mentions(v, is_name):
                ok = None
            R.ob("same", f"{'.'.join(q.split('.')[-2:])} sets {e.attr}", ok, show(v, 4), e.where)


# ------------------------------------------------------------------ writing
def file_name_ok(v, compressed):
    """does a name built from parts carry `.{name}` in front of its extension?  True / False / None"""
    v = strip(v)
    if v.k != "cat":
        return None if v.k in ("call", "phi", "elem", "param") else False
    parts = [strip(x) for x in v.a[0]]
    at = [i for i, x in enumerate(parts) if mentions(x, is_name)]
    if not compressed:
        return not at
    if not at:
        return False
    if len(at) > 1:
        return None
    i = at[0]
    prev = parts[i - 1] if i else None
    if not is_name(parts[i]):
        return None
    ok = prev is not None and is_const(prev) and isinstance(eval_str(prev), str) and eval_str(prev).endswith(".")
    return ok


def recorded(P, R):
    f = P.func(WR + ".get_config")
    R.unit(f.qual)
    ev = evaluate(P, f)[1]
    n = 0
    for g, v in galts(ev.ret):
        d = dict_get(strip(v), "compression")
        if d is None:
            continue
        n += 1
        d = strip(d)
        R.ob("recorded", "compression entry of the index", is_attr(d, "_compression") or (None if mentions_attr(d, "_compression") and not mentions(d, lambda x: x.k == "ite" or x.k == "call") else False), show(d, 4), f.where)
    R.ob("recorded", "entry of the index", n > 0 or None, "", f.where)
    # file names
    sites = []
    for q, g in sorted(P.funcs.items()):
        texts = [x.value for x in P.nodes(g) if isinstance(x, ast.Constant) and isinstance(x.value, str) and " " not in x.value]
        if any(x.startswith("chunk-") for x in texts) and any(x.endswith(".bin") for x in texts):
            sites.append(g)
    for g in need({s.qual: s for s in sites}.values(), "names given to chunks"):
        R.unit(g.qual)
        seq, ev = evaluate(P, g)
        vals = []
        if g.name == "get_chunk_filename":
            vals = [(ev.ret, g.where)]
        else:
            for e, c in flow.walk(seq):
                if e.kind == "setitem" and strip(e.idx) is const("filename"):
                    vals.append((e.value, e.where))
                if e.kind == "call" and e.kw and "new_filename" in kwnamed(e.kw):
                    vals.append((kwnamed(e.kw)["new_filename"], e.where))
        for v, where in vals:
            for comp in (True, False):
                t = strip(spec(v, scenario(comp)))
                oks = [file_name_ok(x, comp) for _, x in galts(t)]
                ok = False if False in oks else (None if None in oks else True)
                R.ob("recorded", f"{g.name}: name of a chunk, {'' if comp else 'not '}compressed", ok, show(t, 5), where)


def calls_in(v, *names):
    return [x for x in {id(y): y for y in subterms(v)}.values() if x.k == "call" and x.a[0].k == "meth" and x.a[0].a[1] in names and is_compressor(x.a[0].a[0])]


def once_written(P, R):
    n = 0
    wr = P.cls(WR)
    for q, g in sorted(P.funcs.items()):
        if g.cls is None or not (g.cls is wr or wr in g.cls.mro()):
            continue
        for e, c in own_events(P, g):
            w = writes_to(e)
            if w is None or not e.args or e.recv is None:
                continue
            path, mode = file_of(e.recv)
            m = eval_str(mode) if mode is not None and is_const(strip(mode)) else None
            if not (isinstance(m, str) and "b" in m):
                continue
            n += 1
            R.unit(g.qual)
            for comp in (True, False):
                if any(truth3(x, scenario(comp)) is False for x in c.guards):
                    continue
                v = strip(spec(e.args[0], scenario(comp)))
                k = len(calls_in(v, "compress"))
                wrong = calls_in(v, "decompress")
                ok = (k == (1 if comp else 0)) and not wrong
                if comp and ok:
                    x = calls_in(v, "compress")[0]
                    ok = v is x and len(x.a[1]) == 1 and not mentions(x.a[1][0], lambda y: y.k == "slice") or None
                    if v.k == "ite":
                        # kept as it is for some data only
                        for cond, y in galts(v):
                            if not calls_in(y, "compress") and any(mentions(l, lambda z: z.k == "param") for l in tm.literals(cond) if truth3(l, scenario(comp)) is None):
                                ok = False
                if not ok and ok is not None and k == 0 and comp and mentions(v, lambda y: y.k == "call" and "compress" in fname(y)):
                    ok = None
                R.ob("once", f"{g.name}: written, {'' if comp else 'not '}compressed", ok, f"compressed {k} times: {show(v, 4)}", e.where)
    need(range(n), "chunks written")
    # what is handed to it wasn't compressed before
    f = P.func(WR + ".write_chunk_to_file")
    k = 0
    for q, g in sorted(P.funcs.items()):
        for e, c in own_events(P, g, opaque=("_create_chunk", "write_chunk_to_file")):
            if e.kind == "call" and e.name == "write_chunk_to_file":
                k += 1
                a = (passed(e, f) or {}).get(f.params[1])
                if a is not None:
                    R.ob("once", f"{g.name}: handed over to be written", not mentions(a, lambda x: x.k == "call" and fname(x).split(".")[-1] in ("compress", "decompress")), show(a, 4), e.where)
    # and nothing else compresses
    for q, g in sorted(P.funcs.items()):
        if g.module.name == "litdata.streaming.compression":
            continue
        for e, c in own_events(P, g):
            if e.kind == "call" and e.name in ("compress", "decompress") and e.recv is not None and is_compressor(e.recv) and not c.inside:
                mine = e.name == "compress" and g.cls is not None and (g.cls is wr or wr in g.cls.mro()) or e.name == "decompress" and g.cls is not None and g.cls.is_sub("ChunksConfig")
                R.ob("once", f"{'.'.join(q.split('.')[-2:])} calls {e.name}", mine or None, "", e.where)


# ------------------------------------------------------------------ reading
def without_name(t):
    """receiver of a replacement of `.{name}` with nothing"""
    t = strip(t)
    if t.k == "call" and t.a[0].k == "meth" and t.a[0].a[1] in ("replace", "removesuffix") and t.a[1]:
        p = strip(t.a[1][0])
        if mentions(p, is_name):
            return t.a[0].a[0], p, strip(t.a[1][1]) if len(t.a[1]) > 1 else const("")
    return None


def decompressed(P, R):
    f = P.func(CF + ".try_decompress")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    src = f.params[1]

    def exists(v):
        def extra(t):
            if t.k == "call" and fname(t).split(".")[-1] in ("exists", "isfile"):
                return v if mentions(t, lambda y: without_name(y) is not None) else True
            return None
        return extra

    atom = scenario(True, True, exists(False))
    wrote = []

    def step(st, e):
        if e.kind == "call" and e.name == "decompress":
            return [min(st[0] + 1, 2)], st[1]
        return st

    # not compressed: nothing happens
    acts = []

    def watch(st, e):
        if e.kind == "call" and (e.name in ("decompress", "rename", "replace", "remove", "unlink") and not (e.name == "replace" and without_name(mkcall(e)) is not None) or writes_to(e) is not None):
            if not (e.name == "replace" and dotted(e.fn if getattr(e, "fn", None) is not None else None) not in ("os.replace",)):
                acts.append(e)
        return [st]

    flow.Typestate(watch, under(scenario(False))).run(seq, ["-"])
    R.ob("once", "try_decompress: not compressed", not acts, f"{acts[0].name} is called" if acts else "", acts[0].where if acts else f.where)
    # decompressed already: kept
    acts.clear()
    flow.Typestate(watch, under(scenario(True, True, exists(True)))).run(seq, ["-"])
    bad = [e for e in acts if e.name in ("decompress",) or writes_to(e) is not None]
    R.ob("once", "try_decompress: decompressed already", not bad, "it is decompressed again", bad[0].where if bad else f.where)
    # otherwise the data of the compressed file, decompressed once, becomes the target
    n = 0
    for e, c in flow.walk(seq):
        if writes_to(e) is None or not e.args or any(truth3(x, atom) is False for x in c.guards):
            continue
        n += 1
        v = strip(spec(e.args[0], atom))
        ds = calls_in(v, "decompress")
        ok = len(ds) == 1 and v is ds[0] and not calls_in(v, "compress")
        if ok:
            a = strip(ds[0].a[1][0]) if ds[0].a[1] else None
            rd = a is not None and a.k == "call" and a.a[0].k == "meth" and a.a[0].a[1] in ("read", "read_bytes")
            ok = rd and not a.a[1] and mentions_param(a, src) and not mentions(a, lambda y: without_name(y) is not None)
            if not ok and not rd:
                ok = None
        elif ds:
            ok = None if len(ds) == 1 else False
        R.ob("once", "try_decompress: written", ok, show(v, 5), e.where)
    need(range(n), "decompressed data written")
    moved = []
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name in ("rename", "replace", "move", "renames") and len(e.args) == 2 and dotted(e.fn if getattr(e, "fn", None) is not None else None).split(".")[0] in ("os", "shutil"):
            moved.append(e)
    opened = [e for e, c in flow.walk(seq) if e.kind == "call" and (e.callee == "open" or e.name in ("open", "NamedTemporaryFile", "mkstemp", "link", "symlink", "copy", "copyfile")) and not any(truth3(x, atom) is False for x in c.guards)]
    if not moved and opened and all(e.callee == "open" for e in opened):
        # written directly under the target name or never
        there = [e for e in opened if len(e.args) > 1 and "w" in str(strip(e.args[1])) and without_name(strip(e.args[0])) is not None]
        R.ob("once", "try_decompress: to be decompressed", bool(there), "the decompressed data never gets the name of the chunk", f.where)
    for e in moved:
        v = strip(e.args[1])
        ok = mentions(v, lambda y: without_name(y) is not None) and mentions_param(v, src)
        R.ob("named", "try_decompress: target", ok or (None if v.k == "call" and not ok and v.a[0].k != "ext" else False), show(v, 5), e.where)

    def st2(st, e):
        if e.kind == "call" and e.name == "decompress":
            return ["d"]
        if e.kind == "call" and any(e is m for m in moved):
            return ["done"] if st == "d" else ["early"]
        return [st]

    out = flow.Typestate(st2, under(atom)).run(seq, ["-"])
    end = {s for s, _ in out["norm"] | out["ret"]}
    if moved:
        R.ob("once", "try_decompress: to be decompressed", end == {"done"}, f"ends with {sorted(end)}", f.where)


def mkcall(e):
    return getattr(e, "term", None) or getattr(e, "value", None) or const(None)


def fetched(P, R):
    """whatever way a chunk came into the cache, it is decompressed before the fetch is over"""
    f = P.func(CF + ".download_chunk_from_index")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"try_decompress", "download_chunk_from_index", "_increment_local_lock"})
    for here in (True, False):
        def extra(t, here=here):
            t = strip(t)
            if t.k == "call" and fname(t).split(".")[-1] in ("exists", "isfile"):
                return here
            if t.k in ("is", "eq") and NONE in [strip(x) for x in t.a] and any(is_attr(strip(x), "_downloader") for x in t.a):
                return False
            if is_attr(t, "_downloader"):
                return True
            return None

        def step(st, e):
            if e.kind == "call" and e.name == "download_chunk_from_index":
                return ["fetched"]
            if e.kind == "call" and e.name == "try_decompress":
                return ["ready" if here or st == "fetched" else st]
            return [st]

        out = flow.Typestate(step, under(scenario(True, True, extra))).run(seq, ["here" if here else "away"])
        end = {s for s, _ in out["norm"] | out["ret"]}
        R.ob("once", f"chunk {'in the cache already' if here else 'to be downloaded'}", end == {"ready"}, f"ends with {sorted(end)}", f.where)
    n = 0
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name == "try_decompress" and e.args:
            n += 1
            v = strip(e.args[0])
            ok = v.k == "join" and mentions_attr(v, "_cache_dir") and mentions_key(v, "filename") and not mentions(v, lambda y: without_name(y) is not None)
            R.ob("once", "file that is decompressed", ok or (False if mentions(v, lambda y: without_name(y) is not None) else None), show(v, 4), e.where)
    need(range(n), "calls of try_decompress")


def base_name(P, f, t, depth=0):
    """is the text a file name, not a path with folders?  True / False / None"""
    t = strip(t)
    if t.k == "ite":
        a, b = base_name(P, f, t.a[1], depth), base_name(P, f, t.a[2], depth)
        return False if False in (a, b) else (None if None in (a, b) else True)
    if t.k == "sub":
        k = strip(t.a[1])
        if k is const("filename"):
            return True
        x = strip(t.a[0])
        if x.k == "call" and fname(x) in ("os.path.split", "os.path.splitdrive") and is_const(k):
            return k.a[1] in (1, -1)
        if x.k == "call" and x.a[0].k == "meth" and x.a[0].a[1] in ("split", "rsplit", "partition", "rpartition") and is_const(k):
            return True if k.a[1] in (-1, 2) else None
    if t.k == "join":
        return False
    if t.k == "call":
        n = fname(t)
        if n in ("os.path.basename", "basename"):
            return True
        if n.endswith("joinpath"):
            return False
    if t.k == "attr" and t.a[1] in ("filename", "name"):
        return True
    if t.k == "param" and depth < 3:
        got = []
        for q, g in sorted(P.funcs.items()):
            for e, c in own_events(P, g, opaque=(f.name,)):
                if e.kind == "call" and e.name == f.name:
                    a = passed(e, f)
                    v = a.get(t.a[0]) if a else None
                    got.append(None if v is None else base_name(P, g, v, depth + 1))
        return None if not got else (False if False in got else (None if None in got else True))
    return None


def named(P, R):
    n = 0
    for q, f in sorted(P.funcs.items()):
        if f.cls is None or not f.cls.is_sub("ChunksConfig"):
            continue
        seq, ev = evaluate(P, f, policy=lambda *a: False)
        terms_ = {}
        for e, c in flow.walk(seq):
            for v in list(e.args or ()) + [x for x in (getattr(e, "value", None), getattr(e, "idx", None), getattr(e, "recv", None)) if x is not None]:
                if hasattr(v, "k"):
                    for y in subterms(v):
                        if without_name(y) is not None:
                            terms_.setdefault(id(y), (y, e.where))
        if ev.ret is not None:
            for y in subterms(ev.ret):
                if without_name(y) is not None:
                    terms_.setdefault(id(y), (y, f.where))
        for y, where in terms_.values():
            n += 1
            R.unit(f.qual)
            recv, pat, new = without_name(y)
            pat = strip(pat)
            okp = pat.k == "cat" and len(pat.a[0]) == 2 and strip(pat.a[0][0]) is const(".") and is_name(pat.a[0][1])
            R.ob("named", f"{f.name}: what is taken out of the name", (okp and new is const("")) or (False if is_const(new) and new is not const("") or is_name(pat) or okp else None), show(y, 4), where)
            b = base_name(P, f, recv)
            R.ob("named", f"{f.name}: taken out of the name of the file only", b, f"a folder of the cache can have it in its name: {show(recv, 4)}", where)
    need(range(n), "names without that of the compression")
    # where readers look for the chunk
    f = P.func(CF + ".__getitem__")
    R.unit(f.qual)
    ev = evaluate(P, f)[1]
    for comp in (True, False):
        for g, v in galts(spec(ev.ret, scenario(comp))):
            v = strip(v)
            p = strip(v.a[0][0]) if v.k == "tuple" and v.a[0] else v
            has = mentions(p, lambda y: without_name(y) is not None)
            ok = mentions_key(p, "filename") and mentions_attr(p, "_cache_dir") and (has if comp else True)
            R.ob("named", f"path a chunk is read from, {'' if comp else 'not '}compressed", ok if ok or p.k == "join" or has else None, show(p, 5), f.where)


def asked(P, R):
    """a compressed dataset on the local disk is requested too: that is what decompresses it"""
    c = P.cls(S + "reader.BinaryReader")
    m = c.find("read")
    R.unit(m.qual)

    def extra(t):
        t = strip(t)
        if t.k == "attr" and t.a[1] in ("_remote_dir", "_prepare_thread", "_last_chunk_index", "_downloader", "_chunks_queued_for_download"):
            return False
        if is_attr(t, "_config"):
            return True
        if t.k in ("is", "eq") and len(t.a) == 2 and NONE in [strip(x) for x in t.a]:
            o = [strip(x) for x in t.a if strip(x) is not NONE]
            if o and o[0].k == "attr" and o[0].a[1] in ("_remote_dir", "_prepare_thread", "_last_chunk_index"):
                return True
            if o and is_attr(o[0], "_config"):
                return False
        if t.k == "eq" and len(t.a) == 2 and any(is_attr(strip(x), "_last_chunk_index") for x in t.a):
            return False
        return None

    seq, ev = evaluate(P, m, self_cls=c, opaque={"load_item_from_chunk", "download", "_try_load_config"})
    bad, n = [], [0]

    def step(st, e):
        if e.kind == "call" and e.name == "download" and e.recv is not None:
            return ["asked"]
        if e.kind == "call" and e.name == "load_item_from_chunk":
            n[0] += 1
            if st == "new":
                bad.append(e)
        return [st]

    def fresh(x):
        """a reader that hasn't read anything"""
        return NONE if x.k == "attr" and x.a[1] in ("_prepare_thread", "_last_chunk_index") else FALSE if is_attr(x, "_chunks_queued_for_download") else None

    for listed in (True, False):
        at = scenario(True, True, lambda t: listed if is_attr(strip(t), "chunk_indexes") else extra(t))
        flow.Typestate(step, lambda st, cond: None if excluded(tm.rebuild(cond, fresh), at) else st).run(seq, ["new"])
    R.ob("once", "first chunk of a local compressed dataset", not bad if n[0] else None, "it is read without being requested, so never decompressed", bad[0].where if bad else m.where)


def handed_on(P, R):
    n = wired(P, R, "handed-on", "compression", skip=lambda f, t: t.name in ("_create_dataset", "_Result") or f.name == "_create_dataset"
              or f.name in ("_done", "_upload_index") and t.qual.endswith("Cache.__init__"))  # caches made to merge or upload an index hold no samples
    need(range(n), "calls that hand the compression on")
    k = 0
    f = P.func("processing.data_processor.BaseWorker._create_cache")
    for e, c in own_events(P, f):
        if e.kind == "call" and e.name == "Cache" or e.kind == "call" and (e.callee or "").endswith("Cache"):
            k += 1
            v = (e.kw and kwnamed(e.kw).get("compression")) if e.kw else None
            init = P.func(S + "cache.Cache.__init__")
            v = v if v is not None else (passed(e, init) or {}).get("compression")
            R.ob("handed-on", "BaseWorker._create_cache -> Cache", v is not None and strip(v).k == "attr" and strip(v).a[1] == "compression" and mentions_attr(v, "data_recipe"), show(v, 3) if v is not None else "not passed", e.where)
    need(range(k), "cache of a worker")
    for cls, attr in ((S + "cache.Cache", None), ("processing.data_processor.DataChunkRecipe", "compression"), (S + "reader.BinaryReader", "_compression")):
        c = P.cls(cls)
        for m in c.methods.values():
            for e, ctx in own_events(P, m):
                if attr and e.kind == "store" and e.attr == attr and strip(e.base).k == "self":
                    v = strip(e.value)
                    R.ob("handed-on", f"{c.name}.{attr} set by {m.name}", v.k == "param" and v.a[0] == "compression", show(v, 3), e.where)
