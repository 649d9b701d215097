"""C01: every reader of a chunk uses the byte layout its writer produces."""
from .common import *

DT = {"uint8": 1, "int8": 1, "uint16": 2, "int16": 2, "uint32": 4, "int32": 4, "uint64": 8, "int64": 8, "float32": 4,
      "float64": 8, "intc": 4, "uintc": 4}


def dtype_name(t):
    """numpy dtype named by a term: np.uint32, 'uint32', '<u4', np.dtype(...)."""
    if t is None:
        return None
    if t.k == "ext" and t.a[0].split(".")[0] in ("numpy", "torch"):
        n = t.a[0].split(".")[-1]
        return n if n in DT else None
    if t.k == "const" and t.a[0] == "str":
        s = t.a[1].lstrip("<=")
        if s in DT:
            return s
        m = {"u": "uint", "i": "int", "f": "float"}
        if len(s) == 2 and s[0] in m and s[1].isdigit():
            return m[s[0]] + str(8 * int(s[1]))
    if t.k == "call" and fname(t) == "numpy.dtype" and t.a[1]:
        return dtype_name(t.a[1][0])
    return None


def kwarg(t, name):
    for k, v in t.a[2]:
        if k == name:
            return v
    return None


def arg(t, i, name=None):
    if i < len(t.a[1]):
        return t.a[1][i]
    return kwarg(t, name) if name else None


class Scalar:
    def __init__(self, value, dt):
        self.value, self.dt = value, dt


class Array:
    """Array of dtype dt; content: ('raw', term) list term | ('prefix', sizes term) ; plus an added base (poly)."""

    def __init__(self, kind, src, dt, base=ZERO):
        self.kind, self.src, self.dt, self.base = kind, src, dt, base


def as_array(t):
    """Abstract a numpy expression into (content, dtype, constant shift)."""
    if t.k == "poly":
        arrs = [(c, m) for c, m in t.a[0] if len(m) == 1 and as_array(m[0]) is not None and c == 1]
        if len(arrs) == 1:
            a = as_array(arrs[0][1][0])
            rest = tm.sub(t, arrs[0][1][0])
            return Array(a.kind, a.src, a.dt, tm.add(a.base, rest))
        return None
    if t.k != "call":
        return None
    n = fname(t)
    if n in ("numpy.array", "numpy.asarray", "numpy.fromiter"):
        src = arg(t, 0, "object")
        dt = dtype_name(arg(t, 1, "dtype"))
        src = peel(src) if src.k == "call" and fname(src) in ("list", "tuple") else src
        if fname(src) == "itertools.accumulate" and src.k == "call":
            return Array("prefix", src.a[1][0], dt)
        inner = as_array(src)
        if inner is not None:
            return Array(inner.kind, inner.src, dt or inner.dt, inner.base)
        return Array("raw", src, dt)
    if n == "numpy.cumsum":
        a = as_array(t.a[1][0])
        dt = dtype_name(kwarg(t, "dtype"))
        return Array("prefix", a.src if a else t.a[1][0], dt)
    if t.a[0].k == "meth":
        recv = as_array(t.a[0].a[0])
        if recv is None:
            return None
        if n == "cumsum":
            return Array("prefix", recv.src, dtype_name(kwarg(t, "dtype")) or None) if recv.kind == "raw" else None
        if n == "astype":
            return Array(recv.kind, recv.src, dtype_name(arg(t, 0, "dtype")), recv.base)
    return None


def as_scalar(t):
    if t.k == "call" and t.a[0].k == "ext" and t.a[0].a[0].startswith("numpy.") and len(t.a[1]) == 1:
        d = dtype_name(t.a[0])
        if d:
            return Scalar(t.a[1][0], d)
    return None


def list_len(t):
    """Number of elements of a list term, as a polynomial."""
    if t.k in ("list", "tuple"):
        return const(len(t.a[0]))
    if t.k == "extend":
        return tm.add(list_len(t.a[0]), list_len(t.a[1]))
    if t.k == "append":
        return tm.add(list_len(t.a[0]), ONE)
    if t.k == "comp" and len(t.a[2]) == 1 and t.a[2][0][1] is TRUE and t.a[0] in ("list", "gen"):
        return list_len(t.a[2][0][0])
    if t.k == "call" and fname(t) in ("list", "tuple", "map") and t.a[1]:
        return list_len(t.a[1][-1])
    return mk("call", mk("ext", "len"), (t,), (), 0)


def bytelen(t):
    """Number of bytes of a bytes term, as a polynomial (None: unknown)."""
    if t.k == "call" and fname(t) == "tobytes" and t.a[0].k == "meth":
        x = t.a[0].a[0]
        s = as_scalar(x)
        if s:
            return const(DT[s.dt])
        a = as_array(x)
        if a and a.dt:
            return tm.mul(const(DT[a.dt]), list_len(a.src))
    if t.k == "call" and fname(t) == "struct.pack" and t.a[1][0].k == "const":
        import struct

        return const(struct.calcsize(t.a[1][0].a[1]))
    return None


def norm_len(t):
    """Replace len(<bytes>)/<array>.nbytes/.itemsize/len(list) by polynomials in the number of items."""

    def f(x):
        if x.k == "call" and fname(x) == "len" and len(x.a[1]) == 1:
            b = bytelen(x.a[1][0])
            if b is not None:
                return b
            if x.a[1][0].k in ("extend", "append", "comp"):
                return list_len(x.a[1][0])
            a = as_array(x.a[1][0])
            if a is not None:
                return list_len(a.src)
        if x.k == "attr" and x.a[1] == "nbytes":
            s = as_scalar(x.a[0])
            if s:
                return const(DT[s.dt])
            a = as_array(x.a[0])
            if a and a.dt:
                return tm.mul(const(DT[a.dt]), list_len(a.src))
        if x.k == "attr" and x.a[1] == "itemsize":
            s = as_scalar(x.a[0])
            if s:
                return const(DT[s.dt])
            a = as_array(x.a[0])
            if a and a.dt:
                return const(DT[a.dt])
            d = x.a[0]
            if d.k == "call" and fname(d) == "numpy.dtype":
                dn = dtype_name(d.a[1][0])
                if dn:
                    return const(DT[dn])
        return None

    return tm.rebuild(t, f)


def bytes_parts(t):
    if t.k == "bcat":
        return list(t.a[0])
    if t.k == "call" and fname(t) == "join" and t.a[0].k == "meth" and is_const(t.a[0].a[0]) and t.a[1] and t.a[1][0].k in ("list", "tuple"):
        return list(t.a[1][0].a[0])
    return [t]


def find_layout(term):
    """The plain (unencrypted) concatenation inside the value returned by the chunk builder."""
    best = None
    for x in subterms(term):
        p = bytes_parts(x)
        if len(p) >= 3 and (best is None or len(p) > len(best)):
            best = p
    return best


def check(P, R):
    R.rule("writer-header", "a chunk is: uint32 item count, uint32 offsets of every item plus the end, then the item bytes")
    R.rule("writer-offsets", "stored offsets are prefix sums of the item sizes (from 0) shifted by exactly the header size")
    R.rule("writer-payload", "the payload is the item bytes in the order used for the offsets, each item's recorded size being its byte length")
    R.rule("reader-offset-entry", "a reader finds the offset pair of item i of a chunk starting at b at byte 4 + 4*(i-b)")
    R.rule("reader-pair", "a reader reads two consecutive uint32 and returns exactly the bytes [first, second)")
    R.rule("tokens-base", "the token reader skips exactly the header: 4*(1 + items + 1) bytes")
    R.rule("tokens-offset", "the token reader takes block_size tokens at itemsize*(i-b)*block_size from the payload")
    R.rule("item-head", "an item is a uint32 size per leaf followed by the leaves' bytes, and decoding slices the same layout")
    R.rule("parquet-row", "a parquet reader takes row i-b, looked up in the row group that holds it whatever the sizes of the groups")

    # ------------------------------------------------------------------ writer
    f = P.func("streaming.writer.BinaryWriter._create_chunk")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    parts = find_layout(ev.ret)
    if not parts:
        raise AnalysisBroken("chunk builder: no header/offsets/payload concatenation found")
    W = {}
    ok = len(parts) == 3
    R.ob("writer-header", "part count", ok, f"{len(parts)} parts: {[show(p, 4) for p in parts]}", f.where)
    head = parts[0].a[0].a[0] if parts[0].k == "call" and fname(parts[0]) == "tobytes" else None
    sc = as_scalar(head) if head is not None else None
    items = None
    if sc is not None and sc.value.k == "call" and fname(sc.value) == "len":
        items = sc.value.a[1][0]
    R.ob("writer-header", "item count", sc is not None and sc.dt == "uint32" and items is not None,
         f"first field is {show(parts[0], 5)}", f.where)
    offt = parts[1].a[0].a[0] if parts[1].k == "call" and fname(parts[1]) == "tobytes" else None
    arr = as_array(offt) if offt is not None else None
    R.ob("writer-header", "offset table dtype", arr is not None and arr.dt == "uint32" and arr.kind == "prefix",
         f"second field is {show(parts[1], 6)}", f.where)
    N = list_len(items) if items is not None else None
    if arr is not None and N is not None:
        base = norm_len(arr.base)
        want = tm.add(const(4), tm.mul(const(4), tm.add(N, ONE)))
        R.ob("writer-offsets", "base shift", base is want, f"offsets are shifted by {show(base, 5)}, header is {show(want, 5)}", f.where)
        src = arr.src
        zero_first = (src.k == "extend" and src.a[0].k == "list" and src.a[0].a[0] == (ZERO,)) or (
            src.k == "list" and src.a[0] and src.a[0][0] is ZERO and src.a[0][1:] and src.a[0][1].k == "star")
        sizes = src.a[1] if src.k == "extend" else (src.a[0][1].a[0] if src.k == "list" and len(src.a[0]) == 2 and src.a[0][1].k == "star" else None)
        if sizes is not None and sizes.k == "call" and fname(sizes) in ("list", "tuple") and sizes.a[1]:
            sizes = sizes.a[1][0]
        R.ob("writer-offsets", "starts at zero", zero_first, f"prefix sums over {show(src, 5)}", f.where)
        sok = sizes is not None and sizes.k == "comp" and sizes.a[2][0][0] is items and sizes.a[2][0][1] is TRUE and len(sizes.a[2]) == 1
        e = mk("elem", items)
        elt = sizes.a[1] if sizes is not None and sizes.k == "comp" else NONE
        eok = elt is mk("call", mk("ext", "len"), (e,), (), 0) or elt is mk("attr", e, "bytes", 0) or elt is mk(
            "call", mk("ext", "len"), (mk("attr", e, "data", 0),), (), 0)
        R.ob("writer-offsets", "one size per item", sok and eok, f"sizes are {show(sizes, 6) if sizes is not None else '?'}", f.where)
    pl = parts[2]
    ok = False
    if pl.k == "call" and fname(pl) == "join" and pl.a[1]:
        c = pl.a[1][0]
        ok = c.k == "comp" and len(c.a[2]) == 1 and c.a[2][0][0] is items and c.a[2][0][1] is TRUE and strip(c.a[1]) is strip(mk(
            "attr", mk("elem", items), "data", 0))
        ok = ok and is_const(pl.a[0].a[0]) and pl.a[0].a[0].a[1] == b""
    R.ob("writer-payload", "payload order", ok, f"payload is {show(pl, 6)}", f.where)
    # Item(bytes=len(data)), __len__ -> bytes
    lf = P.func("streaming.writer.Item.__len__")
    _, le = evaluate(P, lf)
    R.ob("writer-payload", "Item.__len__", is_attr(le.ret, "bytes", "self") or (
        fname(le.ret) == "len" and is_attr(le.ret.a[1][0], "data", "self")), show(le.ret), lf.where)
    af = P.func("streaming.writer.BinaryWriter.add_item")
    R.unit(af.qual)
    aseq, aev = evaluate(P, af, opaque={"write_chunk", "serialize", "_should_write"})
    n = 0
    fields = [s.target.id for s in P.cls("streaming.writer.Item").node.body if hasattr(s, "target")]
    for e, c in flow.events(aseq, callee="streaming.writer.Item"):
        n += 1
        vals = dict(zip(fields, e.args))
        vals.update(e.kw)
        data, nb = vals.get("data"), vals.get("bytes")
        R.ob("writer-payload", "stored item size", nb is mk("call", mk("ext", "len"), (data,), (), 0),
             f"Item(data={show(data, 4)}, bytes={show(nb, 4)})", e.where)
    if n == 0:
        raise AnalysisBroken("add_item no longer builds an Item")

    # ------------------------------------------------------------------ PyTree reader
    lf = P.func("streaming.item_loader.PyTreeLoader.load_item_from_chunk")
    R.unit(lf.qual)
    lseq, lev = evaluate(P, lf, opaque={"deserialize", "mds_deserialize"})
    idx, begin = mk("param", "index"), mk("param", "begin")
    want = tm.add(const(4), tm.mul(const(4), tm.sub(idx, begin)))
    inrange = tm.le(begin, idx)
    seeks = []
    reads = {}
    for e, c in flow.events(lseq, kind="call"):
        if e.name == "seek" and e.callee is None and e.args:
            seeks.append((e, c))
        if e.name == "read" and e.callee is None:
            reads.setdefault(e.recv, []).append(e)
    entry = data = 0
    for e, c in seeks:
        if len(e.args) > 1 and e.args[1] is not ZERO:
            R.ob("reader-offset-entry", f"seek whence {show(e.recv, 3)}", False, "relative seek", e.where)
            continue
        a = e.args[0]
        if mentions_call(a, "numpy.frombuffer", "frombuffer", "unpack"):
            data += 1
            continue
        entry += 1
        av = tm.simplify_under(a, [inrange])
        R.ob("reader-offset-entry", f"entry seek #{entry}", av is want, f"seeks to {show(a, 6)}, expected {show(want)} for begin <= index", e.where)
    need(range(entry), "offset-table seeks in the PyTree reader", 1)
    # returned raw item = read(second-first) at first
    blobs = []
    for e, c in flow.events(lseq, kind="call"):
        if e.name == "read" and e.callee is None and e.args and not is_const(e.args[0]):
            blobs.append((e, c))
    need(blobs, "item reads in the PyTree reader", 1)
    for i, (e, c) in enumerate(blobs):
        pair = None
        for x in subterms(e.args[0]):
            if x.k == "call" and fname(x) in ("numpy.frombuffer", "struct.unpack"):
                pair = x
        if pair is None:
            R.ob("reader-pair", f"item read #{i}", False, f"length {show(e.args[0], 6)} does not come from the offset table", e.where)
            continue
        first, second = mk("sub", pair, ZERO, 0), mk("sub", pair, ONE, 0)
        okl = strip(e.args[0]) is strip(tm.sub(second, first))
        R.ob("reader-pair", f"item length #{i}", okl, f"reads {show(e.args[0], 5)} bytes", e.where)
        okd = dtype_name(arg(pair, 1, "dtype")) == "uint32" if fname(pair) == "numpy.frombuffer" else is_const(pair.a[1][0], "<II") or is_const(pair.a[1][0], "=II")
        R.ob("reader-pair", f"pair dtype #{i}", okd, show(pair, 4), e.where)
        src = arg(pair, 0, "buffer") if fname(pair) == "numpy.frombuffer" else pair.a[1][1]
        okn = src.k == "call" and fname(src) == "read" and src.a[1] and src.a[1][0] is const(8)
        R.ob("reader-pair", f"pair width #{i}", okn, f"pair is read from {show(src, 4)}", e.where)
        prev = [s for s, _ in seeks if strip(s.recv) is strip(e.recv) and strip(s.args[0]) is strip(first)]
        R.ob("reader-pair", f"item start #{i}", bool(prev), f"no seek to the first offset on the handle of {show(e.term, 5)}", e.where)

    # ------------------------------------------------------------------ Tokens reader
    tf = P.func("streaming.item_loader.TokensLoader._load_chunk")
    R.unit(tf.qual)
    tseq, tev = evaluate(P, tf)
    mm = [(e, c) for e, c in flow.events(tseq, kind="call") if e.callee == "numpy.memmap"]
    need(mm, "np.memmap in TokensLoader", 1)
    for e, c in mm:
        off = e.kw.get("offset") or e.arg(3)
        ok = False
        if off is not None:
            p = norm_len(strip(off))
            atoms = [m for m in tm.poly_items(p) if m != ()]
            ok = len(atoms) == 1 and len(atoms[0]) == 1 and is_key(atoms[0][0], "chunk_size") and tm.poly_items(p)[atoms[0]] == 4 and tm.lin_const(p) == 8
            ok = ok and mentions_attr(atoms[0][0], "_chunks") and mentions_param(atoms[0][0], "chunk_index")
        R.ob("tokens-base", "memmap offset", ok, f"maps from {show(off, 5) if off is not None else 'byte 0'}", e.where)
        dt = e.kw.get("dtype") or e.arg(1)
        R.ob("tokens-base", "memmap unit", dt is None or dtype_name(dt) == "uint8", "byte-addressed mapping", e.where)
    tl = P.func("streaming.item_loader.TokensLoader.load_item_from_chunk")
    R.unit(tl.qual)
    lseq, lev = evaluate(P, tl, opaque={"_load_chunk"})
    fb = [(e, c) for e, c in flow.events(lseq, kind="call") if e.callee in ("torch.frombuffer", "numpy.frombuffer")]
    need(fb, "frombuffer in TokensLoader", 2)
    slf = mk("self", P.cls("streaming.item_loader.TokensLoader").qual)
    for e, c in fb:
        bs = mk("attr", slf, "_block_size", 0)
        isz = mk("attr", mk("attr", slf, "_dtype", 0), "itemsize", 0)
        w = tm.mul(tm.mul(isz, tm.sub(idx, begin)), bs)
        off = strip(e.kw.get("offset", ZERO))
        cnt = e.kw.get("count")
        R.ob("tokens-offset", e.callee + " offset", off is w, f"offset {show(off, 6)}", e.where)
        R.ob("tokens-offset", e.callee + " count", cnt is not None and strip(cnt) is bs, f"count {show(cnt, 4) if cnt is not None else None}", e.where)
        R.ob("tokens-offset", e.callee + " dtype", self_attr(strip(e.kw.get("dtype", NONE)), "_dtype"), "", e.where)
        b = e.args[0]
        R.ob("tokens-offset", e.callee + " buffer", mentions_attr(b, "_buffers", "_mmaps") and mentions_param(b, "chunk_index"), show(b, 4), e.where)
    # number of blocks in a chunk
    gi = P.func("streaming.item_loader.TokensLoader.generate_intervals")
    gseq, gev = evaluate(P, gi)
    fd = [x for x in subterms(gev.ret) if x.k == "op" and x.a[0] == "FloorDiv"]
    fd += [x for e, c in flow.walk(gseq) for t in ([e.term, e.value] if e.kind in ("call", "return") else [e.value]) if t is not None for x in subterms(t) if x.k == "op" and x.a[0] == "FloorDiv"]
    ok = bool(fd) and all(is_key(x.a[1], "dim") and self_attr(strip(x.a[2]), "_block_size") for x in fd)
    R.ob("tokens-offset", "blocks per chunk", ok, str([show(x, 4) for x in fd[:2]]), gi.where)

    # ------------------------------------------------------------------ item head
    ef = P.func("streaming.item_loader.PyTreeLoader.encode_data")
    R.unit(ef.qual)
    _, eev = evaluate(P, ef)
    enc = eev.ret.a[0][0] if eev.ret.k == "tuple" else eev.ret
    ps = bytes_parts(enc)
    ok = len(ps) == 2 and ps[0].k == "call" and fname(ps[0]) == "tobytes"
    if ok:
        a = as_array(ps[0].a[0].a[0])
        ok = a is not None and a.dt == "uint32" and a.kind == "raw" and a.src is mk("param", "sizes") and a.base is ZERO
        j = ps[1]
        ok = ok and j.k == "call" and fname(j) == "join" and j.a[1][0] is mk("param", "data")
    R.ob("item-head", "encode", ok, show(enc, 6), ef.where)
    sf = P.func("streaming.item_loader.BaseItemLoader.setup")
    sseq, sev = evaluate(P, sf)
    okw = False
    for e, c in flow.events(sseq, kind="store"):
        if e.attr == "_shift_idx":
            v = strip(e.value)
            p = tm.poly_items(v)
            okw = len(p) == 1 and list(p.values()) == [4] and len(list(p)[0]) == 1 and fname(list(p)[0][0]) == "len" and mentions_key(v, "data_format")
    R.ob("item-head", "head width", okw, "one uint32 per leaf", sf.where)
    df = P.func("streaming.item_loader.PyTreeLoader.deserialize")
    R.unit(df.qual)
    dseq, dev = evaluate(P, df)
    raw = mk("param", "raw_item_data")
    shift = lambda t: self_attr(strip(t), "_shift_idx")  # noqa: E731
    fbs = [x for e, c in flow.events(dseq, kind="call") for x in [e.term] if e.callee == "numpy.frombuffer"]
    ok = bool(fbs)
    for x in fbs:
        b = arg(x, 0, "buffer")
        ok = ok and dtype_name(arg(x, 1, "dtype")) == "uint32" and b.k == "sub" and b.a[0] is raw and b.a[1].k == "slice" and b.a[1].a[0] in (NONE, ZERO) and shift(b.a[1].a[1])
    R.ob("item-head", "decode sizes", ok, str([show(x, 5) for x in fbs]), df.where)
    sl = [e for e, c in flow.events(dseq, kind="call", name="deserialize")]
    need(sl, "leaf deserialize calls", 1)
    for e in sl:
        b = e.args[0]
        ok = b.k == "sub" and b.a[0] is raw and b.a[1].k == "slice"
        why = show(b, 6)
        if ok:
            lo, hi = b.a[1].a[0], b.a[1].a[1]
            size = tm.sub(hi, lo)
            ok = size.k == "elem" and fbs and strip(size.a[0]) is strip(fbs[0]) or (fbs and strip(size) is strip(mk("elem", fbs[0])))
            if lo in dev.phis:
                init, nxt = dev.phis[lo]
                ok = ok and shift(init) and strip(tm.sub(nxt, lo)) is strip(size)
                why += f"; cursor starts at {show(init, 4)} and advances by {show(tm.sub(nxt, lo), 4)}"
            else:
                ok = False
        R.ob("item-head", "decode slice", ok, why, e.where)

    # ------------------------------------------------------------------ parquet
    from .c27 import rows as parquet_rows
    parquet_rows(P, R, "parquet-row")
