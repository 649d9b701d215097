"""C02: a value is decoded by the codec that encoded it; codes and headers agree and stay those already published."""
import ast

from .common import *
from .c01 import DT, arg, as_array, as_scalar, bytes_parts, dtype_name, kwarg, list_len

# what published datasets were written with (code -> canonical dtype)
TORCH = {0: "float32", 1: "float32", 2: "float64", 3: "float64", 4: "complex64", 5: "complex64", 6: "complex128", 7: "complex128",
         8: "float16", 9: "float16", 10: "bfloat16", 11: "uint8", 12: "int8", 13: "int16", 14: "int16", 15: "int32", 16: "int32",
         17: "int64", 18: "int64", 19: "bool"}
TALIAS = {"float": "float32", "double": "float64", "cfloat": "complex64", "cdouble": "complex128", "half": "float16", "short": "int16",
          "int": "int32", "long": "int64"}
NUMPY = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "complex64",
         "complex128", "bool", "object", "bytes", "str", "void"]
NALIAS = {"bool_": "bool", "object_": "object", "bytes_": "bytes", "str_": "str", "half": "float16", "single": "float32", "double": "float64"}
KEYS = {"str": "StringSerializer", "bool": "BooleanSerializer", "int": "IntegerSerializer", "float": "FloatSerializer", "video": "VideoSerializer",
        "tifffile": "TIFFSerializer", "file": "FileSerializer", "pil": "PILSerializer", "jpeg": "JPEGSerializer", "jpeg_array": "JPEGArraySerializer",
        "bytes": "BytesSerializer", "no_header_numpy": "NoHeaderNumpySerializer", "numpy": "NumpySerializer",
        "no_header_tensor": "NoHeaderTensorSerializer", "tensor": "TensorSerializer", "pickle": "PickleSerializer"}
SER = "streaming.serializers."
FIXED = {"int": "int64", "float": "float64"}


def global_expr(P, mod, name):
    m = P.modules[P.mod(mod)] if hasattr(P, "mod") else None
    for k, m in P.modules.items():
        if k.endswith(mod):
            for n in m.tree.body:
                tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) and n.value else []
                if any(isinstance(t, ast.Name) and t.id == name for t in tg):
                    return n.value, f"src/{k.replace('.', '/')}.py:{n.lineno}"
    raise AnalysisBroken(f"{mod}.{name} vanished")


def last_name(n):
    return n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else n.value if isinstance(n, ast.Constant) else ast.dump(n)


def field(lo):
    return mk("u32at", lo)


class Dec:
    """Normalises a decoder: 4-byte reads at polynomial positions and byte slices of the data parameter."""

    def __init__(self, seq, data):
        self.data = data
        self.arrays = {}  # frombuffer term -> (lo, hi)
        self.slices = []  # (lo, hi, where)
        self.unknown = []
        seen = set()
        for e, c in flow.walk(seq):
            for t in [e.term, e.value] + list(e.args) + list(e.kw.values()):
                if t is not None and t not in seen:
                    seen.add(t)
                    for x in subterms(t):
                        if x.k == "sub" and x.a[0] is data and x.a[1].k == "slice":
                            self.slices.append((x, e.where))
                        if x.k == "call" and fname(x) in ("struct.unpack", "struct.unpack_from", "int.from_bytes"):
                            self.unknown.append(show(x))

    def norm(self, t):
        def f(x):
            r = self.u32(x)
            return r

        for _ in range(6):
            n = tm.rebuild(t, f)
            if n is t:
                return t
            t = n
        return t

    def buf(self, x):
        """frombuffer(data[lo:hi], uint32) -> (lo, hi)"""
        if x.k == "call" and fname(x) == "numpy.frombuffer" and dtype_name(arg(x, 1, "dtype")) == "uint32":
            b = arg(x, 0, "buffer")
            if b.k == "sub" and b.a[0] is self.data and b.a[1].k == "slice":
                lo, hi = b.a[1].a[0], b.a[1].a[1]
                return (ZERO if lo is NONE else lo), hi
            if b is self.data:
                off = arg(x, 3, "offset") or ZERO
                cnt = arg(x, 2, "count")
                return off, (tm.add(off, tm.mul(const(4), cnt)) if cnt is not None else NONE)
        return None

    def u32(self, x):
        if x.k == "call" and x.a[0].k == "meth" and x.a[0].a[1] == "item" and not x.a[1]:
            b = self.buf(x.a[0].a[0])
            if b and tm.sub(b[1], b[0]) is const(4):
                return field(b[0])
        if x.k == "sub":
            b = self.buf(x.a[0])
            if b and is_const(x.a[1]):
                return field(tm.add(b[0], tm.mul(const(4), x.a[1])))
        if x.k == "call" and x.a[0].k == "ext" and x.a[0].a[0] == "int" and x.a[1] and x.a[1][0].k == "u32at":
            return x.a[1][0]
        return None


def enc_parts(t):
    out = []
    for p in bytes_parts(t):
        out += _parts(p)
    return out


def _parts(p):
    if p.k == "call" and fname(p) == "join" and p.a[0].k == "meth" and p.a[1]:
        return _list(p.a[1][0])
    return [p]


def _list(l):
    if l.k in ("list", "tuple"):
        return [x for y in l.a[0] for x in ([y] if y.k != "star" else _list(y.a[0]))]
    if l.k == "append":
        return _list(l.a[0]) + [l.a[1]]
    if l.k == "extend":
        return _list(l.a[0]) + _list(l.a[1])
    if l.k == "call" and fname(l) in ("list", "tuple"):
        return _list(l.a[1][0])
    if l.k == "call" and fname(l) == "itertools.chain":
        return [x for a in l.a[1] for x in _list(a)]
    if l.k == "comp":
        return [l]
    return [mk("unknown", l)]


def check(P, R):
    R.rule("torch-codes", "every published torch dtype code keeps its meaning")
    R.rule("numpy-codes", "every published numpy dtype code keeps its meaning")
    R.rule("inverse", "the encoder's code is looked up in the inverse of the table the decoder uses")
    R.rule("names", "every published format name maps to the same codec class")
    R.rule("order", "a codec that accepts a narrower type is tried before one that accepts a wider type; pickle is last")
    R.rule("header", "the decoder reads each header field at the position the encoder wrote it, and the payload right after")
    R.rule("rank", "codecs that do not store the shape accept only one-dimensional values")
    R.rule("parametrised", "a code carried by the format name is the one the decoder is set up with, on a codec instance of its own")
    R.rule("param-fixed", "a later value whose format differs from the recorded one is rejected when the decoder depends on the format")
    R.rule("scalar", "scalars are written and read with the same fixed-width type")
    R.rule("text", "strings are encoded and decoded with the same character encoding; pickles with pickle; bytes unchanged")
    R.rule("empty", "a value without elements is read back without handing the codec an empty buffer it refuses")
    R.rule("lookup", "a stored format name selects its codec by the part before the colon, position by position")

    # ---- tables
    e, w = global_expr(P, "constants", "_TORCH_DTYPES_MAPPING")
    table = {}
    if isinstance(e, ast.Dict):
        for k, v in zip(e.keys, e.values):
            table[k.value] = TALIAS.get(last_name(v), last_name(v))
        for c, d in TORCH.items():
            R.ob("torch-codes", f"code {c}", table.get(c) == d, f"code {c} is {table.get(c)}, published {d}", w)
    else:
        R.ob("torch-codes", "table", None, "not a dict display", w)
    e, w = global_expr(P, "constants", "_NUMPY_SCTYPES")
    if isinstance(e, (ast.List, ast.Tuple)):
        names = [NALIAS.get(last_name(x), last_name(x)) for x in e.elts]
        for i, d in enumerate(NUMPY):
            got = names[i] if i < len(names) else None
            R.ob("numpy-codes", f"code {i}", got == d, f"code {i} is {got}, published {d}", w)
    else:
        R.ob("numpy-codes", "table", None, "not a list display", w)
    e, w = global_expr(P, "constants", "_NUMPY_DTYPES_MAPPING")
    ok = None
    if isinstance(e, ast.DictComp) and isinstance(e.generators[0].iter, ast.Call) and last_name(e.generators[0].iter.func) == "enumerate":
        it = e.generators[0].iter
        tgt = e.generators[0].target
        ok = (last_name(it.args[0]) == "_NUMPY_SCTYPES" and len(it.args) == 1 and not it.keywords and not e.generators[0].ifs
              and last_name(e.key) == tgt.elts[0].id)
    elif isinstance(e, ast.Call) and last_name(e.func) == "dict":
        ok = None
    R.ob("numpy-codes", "codes count from zero in list order", ok, ast.unparse(e)[:120], w)

    e, w = global_expr(P, SER[:-1], "_SERIALIZERS")
    disp = next((n for n in ast.walk(e) if isinstance(n, ast.Dict)), None)
    got = {}
    if disp is not None:
        for k, v in zip(disp.keys, disp.values):
            got[k.value] = last_name(v.func) if isinstance(v, ast.Call) else last_name(v)
    elif isinstance(e, ast.Call) and e.keywords:
        got = {k.arg: last_name(k.value.func) for k in e.keywords if k.arg}
    elif isinstance(e, ast.Call) and e.args and isinstance(e.args[0], ast.List):
        got = {x.elts[0].value: last_name(x.elts[1].func) for x in e.args[0].elts}
    if got:
        for k, c in KEYS.items():
            R.ob("names", k, got.get(k) == c, f"{k} -> {got.get(k)}, published {c}", w)
        order = list(got)
        for a, b in (("bool", "int"), ("no_header_numpy", "pickle"), ("numpy", "pickle"), ("tensor", "pickle"), ("no_header_tensor", "pickle"),
                     ("video", "pickle"), ("str", "pickle"), ("int", "pickle"), ("float", "pickle"), ("bytes", "pickle"), ("pil", "pickle"), ("jpeg", "pickle"), ("jpeg_array", "pickle")):
            if a in order and b in order:
                R.ob("order", f"{a} before {b}", order.index(a) < order.index(b), "", w)
    else:
        R.ob("names", "registry", None, "registry is not a display", w)

    # ---- can_serialize of shape-less codecs
    for cls, want in (("NoHeaderTensorSerializer", "eq1"), ("NoHeaderNumpySerializer", "eq1"), ("TensorSerializer", "ne1"), ("NumpySerializer", "ne1")):
        f = P.func(SER + cls + ".can_serialize")
        R.unit(f.qual)
        _, ev = evaluate(P, f)
        lits = tm.literals(tm.truth(ev.ret))
        rank = [l for l in lits if mentions_attr(l, "shape", "ndim") or mentions_call(l, "dim", "ndim")]
        isin = [l for l in lits if l.k in ("isinst", "isinstance") or mentions_call(l, "isinstance") or "isinst" in show(l)]
        if want == "eq1":
            ok = len(rank) >= 1 and any(l.k == "eq" and ONE in l.a for l in rank)
        else:
            ok = all(not (l.k == "eq" and ONE in l.a) for l in rank)
        R.ob("rank", cls, ok and bool(isin), show(ev.ret, 6), f.where)

    # ---- inverse tables and headers
    for cls, tbl in (("TensorSerializer", "_TORCH_DTYPES_MAPPING"), ("NumpySerializer", "_NUMPY_DTYPES_MAPPING"),
                     ("NoHeaderTensorSerializer", "_TORCH_DTYPES_MAPPING"), ("NoHeaderNumpySerializer", "_NUMPY_DTYPES_MAPPING")):
        f = P.func(SER + cls + ".__init__")
        s, ev = evaluate(P, f)
        inv = [e for e, c in flow.events(s, kind="store") if e.value.k == "comp" or mentions(e.value, lambda x: x.k == "glob" and x.a[0].endswith(tbl))]
        ok = False
        name = None
        for e in inv:
            v = e.value
            if v.k == "comp" and v.a[0] == "dict" and mentions(v.a[2][0][0], lambda x: x.k in ("glob", "ext", "const") and str(x.a[0]).endswith(tbl)):
                kv = v.a[1]
                ok = inverted(kv, v.a[2][0][0])
                name = e.attr
        R.ob("inverse", cls + " table", ok, f"{[show(e.value, 6) for e in inv]}", f.where)
        f = P.func(SER + cls + ".serialize")
        R.unit(f.qual)
        s, ev = evaluate(P, f)
        okc = mentions(ev.ret, lambda x: x.k == "sub" and name and is_attr(x.a[0], name) and is_attr(x.a[1], "dtype"))
        R.ob("inverse", cls + " code", okc, show(ev.ret, 8), f.where)
        g = P.func(SER + cls + (".deserialize" if "NoHeader" not in cls else ".setup"))
        R.unit(g.qual)
        s2, ev2 = evaluate(P, g)
        uses = [x for e, c in flow.walk(s2) for t in [e.term, e.value] if t is not None for x in subterms(t)
                if x.k == "sub" and x.a[0].k in ("glob", "ext", "const") and "DTYPES_MAPPING" in str(x.a[0].a[0])]
        R.ob("inverse", cls + " decoder table", bool(uses) and all(str(x.a[0].a[0]).endswith(tbl) for x in uses), str([show(x, 3) for x in uses[:2]]), g.where)

    for cls, payload in (("TensorSerializer", True), ("NumpySerializer", True), ("PILSerializer", True), ("JPEGArraySerializer", True)):
        header(P, R, cls)
    empty_values(P, R)

    # C-order on both sides
    for cls in ("TensorSerializer", "NumpySerializer", "NoHeaderTensorSerializer", "NoHeaderNumpySerializer"):
        f = P.func(SER + cls + ".serialize")
        s, ev = evaluate(P, f)
        tb = [e for e, c in flow.events(s, kind="call", name="tobytes") if not as_scalar(e.recv)]
        ok = all((e.kw.get("order") is None and not e.args) or is_const(e.kw.get("order") or e.args[0], "C") for e in tb)
        R.ob("header", cls + " element order", ok and bool(tb), str([show(e.term, 4) for e in tb]), f.where)

    # ---- parametrised names
    for cls, key in (("NoHeaderTensorSerializer", "no_header_tensor"), ("NoHeaderNumpySerializer", "no_header_numpy")):
        f = P.func(SER + cls + ".serialize")
        _, ev = evaluate(P, f)
        nm = ev.ret.a[0][1] if ev.ret.k == "tuple" and len(ev.ret.a[0]) == 2 else NONE
        parts = list(nm.a[0]) if nm.k == "cat" else []
        okn = len(parts) == 2 and is_const(parts[0]) and str(parts[0].a[1]).strip("'\"") == key + ":" and mentions_attr(parts[1], "dtype")
        R.ob("parametrised", cls + " name", okn, show(nm, 5), f.where)
        g = P.func(SER + cls + ".setup")
        s2, ev2 = evaluate(P, g)
        st = [e for e, c in flow.events(s2, kind="store")]
        okp = any(mentions_call(e.value, "split", "partition", "rsplit") and mentions_param(e.value, "data_format", "metadata") for e in st)
        attr = st[0].attr if st else None
        R.ob("parametrised", cls + " setup", okp, str([repr(e)[:120] for e in st]), g.where)
        d = P.func(SER + cls + ".deserialize")
        s3, ev3 = evaluate(P, d)
        fb = [e for e, c in flow.events(s3, kind="call") if e.callee in ("torch.frombuffer", "numpy.frombuffer")]
        okd = bool(fb) and all(attr and mentions_attr(e.kw.get("dtype") or e.arg(1) or NONE, attr) and e.args and e.args[0] is mk("param", "data") for e in fb)
        R.ob("parametrised", cls + " decode", okd, str([show(e.term, 4) for e in fb]), d.where)
    f = P.func("streaming.item_loader.BaseItemLoader.setup")
    R.unit(f.qual)
    s, ev = evaluate(P, f)
    su = [(e, c) for e, c in flow.events(s, kind="call", name="setup")]
    need(su, "serializer.setup call")
    for e, c in su:
        fresh = mentions_call(e.recv, "deepcopy", "copy") or mentions_ext(e.recv, "copy.deepcopy", "copy.copy") or e.recv.k == "new"
        R.ob("parametrised", "own instance per format", fresh, f"setup on {show(e.recv, 5)}", e.where)
        st = [x for x, cc in flow.events(s, kind="setitem") if root_attr(x.base) == "_serializers" or is_attr(x.base, "_serializers")]
        ok = any(x.idx is e.args[0] and (x.value is e.recv or strip(x.value) is strip(e.recv) or root_of(x.value) is root_of(e.recv)) for x in st)
        R.ob("parametrised", "stored under its format", ok, str([repr(x)[:160] for x in st]), e.where)

    # ---- the writer notices a different parametrised format
    f = P.func("streaming.writer.BinaryWriter.serialize")
    s, ev = evaluate(P, f)
    sers = [(e, c) for e, c in flow.events(s, kind="call", name="serialize") if c.loops and mentions_attr(e.recv, "_serializers_extra")]
    need(sers, "serialize with the recorded format")
    for e, c in sers:
        name = mk("sub", e.term, ONE, 0)
        hit = False
        for x, cc in flow.events(s, kind="raise"):
            if any(mentions(g, lambda y: y is name or strip(y) is strip(name)) for g in cc.guards):
                hit = True
        R.ob("param-fixed", "format of later items", hit, "the format name returned for a later value is not compared with the recorded one", e.where)

    # ---- scalars
    f = P.func(SER + "NumericSerializer.serialize")
    s, ev = evaluate(P, f)
    v = ev.ret.a[0][0] if ev.ret.k == "tuple" else ev.ret
    okw = v.k == "call" and fname(v) == "tobytes" and mentions(v, lambda x: x.k in ("meth", "attr") and x.a[1] == "dtype") and mentions_param(v, "obj", "item")
    R.ob("scalar", "write", okw, show(v, 6), f.where)
    f = P.func(SER + "NumericSerializer.deserialize")
    s, ev = evaluate(P, f)
    fb = [x for x in subterms(ev.ret) if fname(x) == "numpy.frombuffer"]
    okr = bool(fb) and all(self_attr(strip(arg(x, 1, "dtype") or NONE), "dtype") for x in fb) and (
        (ev.ret.k == "sub" and ev.ret.a[1] is ZERO) or mentions_call(ev.ret, "item"))
    R.ob("scalar", "read", okr, show(ev.ret, 6), f.where)
    f = P.func(SER + "NumericSerializer.__init__")
    s, ev = evaluate(P, f)
    sz = [e for e, c in flow.events(s, kind="store") if e.attr == "size"]
    for e in sz:
        R.ob("scalar", "size", mentions_attr(e.value, "nbytes", "itemsize") and (mentions_param(e.value, "dtype") or mentions(e.value, lambda x: x.k in ("meth", "attr") and x.a[1] == "dtype")), show(e.value, 5), e.where)
    for cls, want in (("IntegerSerializer", "int64"), ("FloatSerializer", "float64")):
        f = P.func(SER + cls + ".__init__")
        s, ev = evaluate(P, f, policy=lambda *a: False)
        cs = [e for e, c in flow.events(s, kind="call", name="__init__")] + [e for e, c in flow.events(s, kind="store") if e.attr == "dtype"]
        got = [dtype_name(e.arg(0, "dtype") if e.kind == "call" else e.value) for e in cs]
        R.ob("scalar", cls, want in got, str(got), f.where)
    f = P.func(SER + "BooleanSerializer.serialize")
    _, ev = evaluate(P, f)
    g = P.func(SER + "BooleanSerializer.deserialize")
    _, ev2 = evaluate(P, g)
    R.ob("scalar", "BooleanSerializer", mentions_ext(ev.ret, "numpy.bool_") and mentions_ext(ev2.ret, "numpy.bool_"), show(ev.ret, 5) + " / " + show(ev2.ret, 6), f.where)

    # ---- text
    f, g = P.func(SER + "StringSerializer.serialize"), P.func(SER + "StringSerializer.deserialize")
    _, a = evaluate(P, f)
    _, b = evaluate(P, g)
    ea = [x for x in subterms(a.ret) if fname(x) == "encode"]
    eb = [x for x in subterms(b.ret) if fname(x) == "decode"]
    R.ob("text", "str", len(ea) == 1 and len(eb) == 1 and codec(ea[0]) == "utf8" == codec(eb[0]), show(a.ret, 5) + " / " + show(b.ret, 5), f.where)
    f, g = P.func(SER + "PILSerializer.serialize"), P.func(SER + "PILSerializer.deserialize")
    _, a = evaluate(P, f)
    _, b = evaluate(P, g)
    ea = [x for x in subterms(a.ret) if fname(x) == "encode"]
    eb = [x for x in subterms(b.ret) if fname(x) == "decode"]
    R.ob("text", "pil mode", bool(ea) and bool(eb) and len({codec(x) for x in ea + eb}) == 1, "", f.where)
    f, g = P.func(SER + "PickleSerializer.serialize"), P.func(SER + "PickleSerializer.deserialize")
    _, a = evaluate(P, f)
    _, b = evaluate(P, g)
    R.ob("text", "pickle", mentions_ext(a.ret, "pickle.dumps") and mentions_ext(b.ret, "pickle.loads"), show(a.ret, 5) + show(b.ret, 5), f.where)
    f, g = P.func(SER + "BytesSerializer.serialize"), P.func(SER + "BytesSerializer.deserialize")
    _, a = evaluate(P, f)
    _, b = evaluate(P, g)
    R.ob("text", "bytes", a.ret.k == "tuple" and a.ret.a[0][0].k == "param" and b.ret.k == "param", show(a.ret) + " / " + show(b.ret), f.where)

    # ---- lookup
    f = P.func("streaming.item_loader.BaseItemLoader._data_format_to_key")
    R.unit(f.qual)
    _, ev = evaluate(P, f)
    leaves = alts(ev.ret)
    p = mk("param", "data_format")
    okk = True
    for a in leaves:
        ok1 = a is p or (a.k == "sub" and fname(a.a[0]) in ("split", "partition", "rsplit") and mentions(a, lambda x: x is p))
        okk = okk and ok1
    first = [a for a in leaves if a.k == "sub" and a.a[1] is ZERO]
    R.ob("lookup", "key of a format", okk and bool(first), show(ev.ret, 6), f.where)
    f = P.func("streaming.item_loader.PyTreeLoader.deserialize")
    s, ev = evaluate(P, f)
    ds = [e for e, c in flow.events(s, kind="call", name="deserialize")]
    ok = bool(ds) and all(e.recv.k == "sub" and root_attr(e.recv.a[0]) == "_serializers" and mentions_attr(e.recv.a[1], "_data_format") for e in ds)
    R.ob("lookup", "decoder of a leaf", ok, str([show(e.recv, 4) for e in ds]), f.where)
    un = [e for e, c in flow.events(s, kind="call") if (e.callee or "").endswith("tree_unflatten")]
    R.ob("lookup", "structure", bool(un) and all(mentions_key(e.args[1], "data_spec") for e in un), str([show(e.term, 4) for e in un]), f.where)
    f = P.func("streaming.writer.BinaryWriter._serialize")
    s, ev = evaluate(P, f)
    st = [e for e, c in flow.events(s, kind="setitem") if root_attr(e.base) == "_serializers_extra"]
    need(st, "registration of the codec under its format")
    sc = [e for e, c in flow.events(s, kind="call", name="serialize")]
    for e in st:
        ok = any(strip(e.value) is strip(x.recv) for x in sc)
        R.ob("lookup", "codec registered under the recorded name", ok and any(strip(a) is strip(e.idx) or a is e.idx for a in galts_terms(ev.ret)), f"{show(e.idx, 5)} -> {show(e.value, 4)}", e.where)
    for e in sc:
        def can(c):
            return any(mentions_call(g, "can_serialize") and not (g.k == "not") for g in c.guards)
        c = [cc for x, cc in flow.events(s, kind="call", name="serialize") if x is e][0]
        R.ob("lookup", "codec accepts the value", can(c), guards_str(c), e.where)


def empty_values(P, R):
    """torch.frombuffer refuses an empty buffer: where the buffer may be empty, the path tests for it"""
    for n in ("TensorSerializer", "NoHeaderTensorSerializer"):
        c = P.classes.get("litdata.streaming.serializers." + n)
        f = c.find("deserialize") if c is not None else None
        if f is None:
            continue
        seq, ev = evaluate(P, f, self_cls=c)
        for e, cx in flow.walk(seq):
            if e.kind != "call" or e.name != "frombuffer" or strip(e.term).a[0] is None or "torch" not in (fname(e.term) or "") or not e.args:
                continue
            b = strip(e.args[0])
            lo, data = ZERO, b
            if b.k == "sub" and strip(b.a[1]).k == "slice":
                data, sl = strip(b.a[0]), strip(b.a[1])
                lo = ZERO if strip(sl.a[0]) is NONE else strip(sl.a[0])
            if data.k != "param":
                R.ob("empty", n, None, show(b, 3), e.where)
                continue
            ln = [x for g in cx.guards for x in subterms(strip(g)) if x.k == "call" and fname(x) == "len" and x.a[1] and strip(x.a[1][0]) is data]
            gs = [tm.subst(strip(g), {x: lo for x in ln}) for g in cx.guards]
            emptied = tm.subst(strip(tm.truth(data)), {})
            if any(g is FALSE for g in gs) or any(strip(g) is emptied for g in cx.guards):
                ok = True
            else:
                ok = None if cx.trys or any(g is not TRUE and mentions(g, lambda x: x is data) and not ln for g in gs) else False
            R.ob("empty", n, ok, f"buffer {show(b, 4)} {guards_str(cx)}", e.where)


def galts_terms(t):
    out = [t] + list(alts(t))
    for x in list(out):
        if x.k in ("ite", "or"):
            out += [y for y in x.a if isinstance(y, T)]
    return out


def codec(x):
    a = x.a[1][0] if x.a[1] else (kwarg(x, "encoding") or None)
    if a is None:
        return "utf8"
    return str(a.a[1]).strip("'\"").lower().replace("-", "").replace("_", "")


def root_of(t):
    while t.k in ("mut", "append", "upd"):
        t = t.a[0]
    return strip(t)


def inverted(kv, src):
    """dict comp element (key, value) over table.items(): key is the item's value, value its key."""
    if kv.k == "tuple" and len(kv.a[0]) == 2:
        k, v = kv.a[0]
        e = None
        # items(): elem -> (key=elem[0], value=elem[1]); the engine writes key elem(src) and value src[elem(src)]
        def is_key_t(t):
            return t.k == "elem" or (t.k == "sub" and t.a[1] is ZERO and t.a[0].k == "elem")

        def is_val_t(t):
            return t.k == "sub" and (t.a[1].k == "elem" or (t.a[0].k == "elem" and t.a[1] is ONE))

        return is_val_t(k) and is_key_t(v)
    return False


def header(P, R, cls):
    f, g = P.func(SER + cls + ".serialize"), P.func(SER + cls + ".deserialize")
    R.unit(f.qual)
    R.unit(g.qual)
    _, ev = evaluate(P, f, opaque={"_jpeg_serializer"}, policy=lambda *a: False)
    s2, ev2 = evaluate(P, g, policy=lambda *a: False)
    blob = ev.ret.a[0][0] if ev.ret.k == "tuple" else ev.ret
    parts = enc_parts(blob)
    if any(p.k == "unknown" for p in parts):
        R.ob("header", cls, None, "encoder builds its bytes in an unfamiliar way: " + show(blob, 5), f.where)
        return
    data = mk("param", g.params[1] if len(g.params) > 1 else "data")
    D = Dec(s2, data)
    if D.unknown:
        R.ob("header", cls, None, f"decoder uses {D.unknown[0]}", g.where)
        return
    reads = {}
    slices = []
    seen = set()
    for e, c in flow.walk(s2):
        for t in [e.term, e.value] + list(e.args) + list(e.kw.values()):
            if t is None or t in seen:
                continue
            seen.add(t)
            for x in subterms(t):
                b = D.buf(x)
                if b:
                    reads[x] = (b[0], b[1], e.where)
                if x.k == "sub" and x.a[0] is data and x.a[1].k == "slice":
                    slices.append((x.a[1].a[0], x.a[1].a[1], e.where))
    nreads = [(D.norm(lo), D.norm(hi), w) for lo, hi, w in reads.values()]
    nsl = [(D.norm(ZERO if lo is NONE else lo), D.norm(hi), w) for lo, hi, w in slices]
    pos = ZERO
    subs = {}  # encoder value -> field(position)

    def sub(t):
        def h(x):
            return subs.get(strip(x))

        return tm.rebuild(t, h)

    for i, p in enumerate(parts):
        here = sub(pos)
        sc = as_scalar(p.a[0].a[0]) if p.k == "call" and fname(p) == "tobytes" and p.a[0].k == "meth" else None
        ar = as_array(p.a[0].a[0]) if sc is None and p.k == "call" and fname(p) == "tobytes" and p.a[0].k == "meth" else None
        if sc is not None:
            ok = sc.dt == "uint32" and any(tm.sub(lo, here) is ZERO and True for lo, hi, w in nreads)
            R.ob("header", f"{cls} field {i}", ok, f"u32 {show(sc.value, 4)} written at {show(here, 4)}; decoder reads at {[show(lo, 4) for lo, _, _ in nreads]}", f.where)
            subs[strip(sc.value)] = field(here)
            pos = tm.add(pos, const(DT.get(sc.dt, 4)))
        elif ar is not None and ar.kind == "raw" and ar.src.k in ("list", "tuple"):
            n = len(ar.src.a[0])
            ok = ar.dt == "uint32" and any(lo is here and hi is tm.add(here, const(4 * n)) for lo, hi, w in nreads)
            R.ob("header", f"{cls} field {i}", ok, f"{n} u32 at {show(here, 4)}", f.where)
            for j, v in enumerate(ar.src.a[0]):
                subs[strip(v)] = field(tm.add(here, const(4 * j)))
            pos = tm.add(pos, const(4 * n))
        elif ar is not None and ar.kind == "raw" and ar.src.k == "comp":
            cnt = sub(list_len(ar.src.a[2][0][0]))
            hi = tm.add(here, tm.mul(const(4), cnt))
            ok = ar.dt == "uint32" and any(lo is here and h is hi for lo, h, w in nreads)
            R.ob("header", f"{cls} field {i}", ok, f"{show(cnt, 3)} u32 at {show(here, 4)}; decoder reads {[(show(a, 4), show(b, 4)) for a, b, _ in nreads]}", f.where)
            pos = tm.add(pos, tm.mul(const(4), list_len(ar.src.a[2][0][0])))
        elif p.k == "comp":
            el = p.a[1]
            es = as_scalar(el.a[0].a[0]) if el.k == "call" and fname(el) == "tobytes" and el.a[0].k == "meth" else None
            src = p.a[2][0][0]
            cnt = sub(list_len(src))
            if es is not None:
                ix = mk("idx", mk("call", mk("ext", "range"), (cnt,), (), 0))
                def isread(lo):
                    d = tm.sub(lo, here)
                    its = tm.poly_items(d)
                    return len(its) == 1 and list(its.values()) == [4] and list(its)[0] != () and list(its)[0][0].k in ("idx", "elem") and mentions(list(its)[0][0], lambda y: strip(y) is strip(cnt))
                ok = es.dt == "uint32" and any(isread(lo) for lo, hi, w in nreads)
                # the whole block read at once is equivalent
                ok = ok or any(lo is here and hi is tm.add(here, tm.mul(const(4), cnt)) for lo, hi, w in nreads)
                R.ob("header", f"{cls} field {i}", ok, f"one u32 per {show(src, 3)} from {show(here, 4)}; decoder reads at {[show(lo, 5) for lo, _, _ in nreads]}", f.where)
                pos = tm.add(pos, tm.mul(const(4), list_len(src)))
            else:
                # concatenated blobs: decoder walks prefix sums of the recorded sizes starting here
                cs = [x for t in seen for x in subterms(t) if fname(x) in ("numpy.cumsum", "itertools.accumulate")]
                ok = False
                why = ""
                for x in cs:
                    y = D.norm(x)
                    why = show(y, 8)
                    src0 = y.a[1][0]
                    if fname(src0) == "numpy.concatenate":
                        els = src0.a[1][0].a[0]
                        ok = ok or (len(els) == 2 and els[0].k in ("list", "tuple") and els[0].a[0] and els[0].a[0][0] is here)
                if cs:
                    okb = any(hi is not NONE and lo.k == "sub" and hi.k == "sub" and lo.a[0] is hi.a[0] and tm.sub(hi.a[1], lo.a[1]) is ONE for lo, hi, w in nsl)
                    R.ob("header", f"{cls} payload", ok and okb, f"blobs start at {show(here, 4)}: {why}", g.where)
                else:
                    R.ob("header", f"{cls} payload", None, "offsets of the blobs are computed in an unfamiliar way", g.where)
                pos = None
                break
        else:
            last = i == len(parts) - 1
            nxt = NONE if last else sub(tm.add(pos, mk("call", mk("ext", "len"), (p,), (), 0)))
            L = mk("call", mk("ext", "len"), (data,), (), 0)
            ok = any(lo is here and (hi is nxt or (last and hi in (NONE, L))) for lo, hi, w in nsl)
            R.ob("header", f"{cls} {'payload' if last else 'field %d' % i}", ok, f"bytes {show(p, 3)} at {show(here, 5)}; decoder slices {[(show(a, 5), show(b, 4)) for a, b, _ in nsl]}", f.where)
            pos = tm.add(pos, mk("call", mk("ext", "len"), (p,), (), 0))
