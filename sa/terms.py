"""Interned value-number terms with canonical forms.

A term is the static name of a value: two program points that compute the same expression over the same
inputs get the same term, whatever the statements that got them there look like.
"""
from __future__ import annotations

import hashlib
from typing import Callable, Dict, Iterable, List, Optional, Tuple

_TABLE: Dict = {}


class T:
    __slots__ = ("k", "a", "h", "_str", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.h < other.h


def _hash_arg(x, m):
    if isinstance(x, T):
        m.update(b"T" + x.h)
    elif isinstance(x, tuple):
        m.update(b"(")
        for y in x:
            _hash_arg(y, m)
        m.update(b")")
    else:
        m.update(repr(x).encode() + b";")


def mk(k: str, *a) -> T:
    key = (k,) + tuple((type(x).__name__, x) if isinstance(x, (bool, int, float)) else x for x in a)
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.k, t.a = k, a
        m = hashlib.sha1(k.encode())
        for x in a:
            _hash_arg(x, m)
        t.h = m.digest()
        t._str = None
        _TABLE[key] = t
    return t


def const(v) -> T:
    return mk("const", type(v).__name__, v if v.__hash__ is not None else repr(v))


NONE, TRUE, FALSE = const(None), const(True), const(False)
ZERO, ONE = const(0), const(1)


def is_const(t, v=...):
    if t.k != "const":
        return False
    return True if v is ... else (t.a[0] == type(v).__name__ and t.a[1] == v)


def is_num(t):
    return t.k == "const" and t.a[0] in ("int", "float")


def is_str(t):
    return t.k == "const" and t.a[0] in ("str",) or t.k == "cat"


# ------------------------------------------------------------------------------------------ arithmetic
def _to_poly(t: T) -> Dict[Tuple[T, ...], float]:
    if t.k == "const" and t.a[0] in ("int", "float"):
        return {(): t.a[1]} if t.a[1] != 0 else {}
    if t.k == "poly":
        return {m: c for c, m in t.a[0]}
    return {(t,): 1}


def _from_poly(p) -> T:
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return const(c)
        if len(m) == 1 and c == 1:
            return m[0]
    items = tuple(sorted(((c, m) for m, c in p.items()), key=lambda x: tuple(y.h for y in x[1])))
    return mk("poly", items)


def add(a: T, b: T) -> T:
    p = dict(_to_poly(a))
    for m, c in _to_poly(b).items():
        p[m] = p.get(m, 0) + c
    return _from_poly(p)


def neg(a: T) -> T:
    return _from_poly({m: -c for m, c in _to_poly(a).items()})


def sub(a: T, b: T) -> T:
    return add(a, neg(b))


def mul(a: T, b: T) -> T:
    pa, pb = _to_poly(a), _to_poly(b)
    if len(pa) * len(pb) > 64:
        return mk("op", "*", *sorted((a, b)))
    p: Dict = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2))
            p[m] = p.get(m, 0) + c1 * c2
    return _from_poly(p)


def poly_items(t: T) -> Dict[Tuple[T, ...], float]:
    return _to_poly(t)


def lin_const(t: T) -> float:
    return _to_poly(t).get((), 0)


# ------------------------------------------------------------------------------------------ strings
def cat(parts: Iterable[T]) -> T:
    out: List[T] = []
    for p in parts:
        sub_parts = p.a[0] if p.k == "cat" else (p,)
        for q in sub_parts:
            while _of(q, "str") is not None and not q.a[2]:
                q = _of(q, "str")  # f"{str(x)}" is f"{x}"
            if q.k == "const" and q.a[0] == "str":
                if q.a[1] == "":
                    continue
                if out and out[-1].k == "const" and out[-1].a[0] == "str":
                    out[-1] = const(out[-1].a[1] + q.a[1])
                    continue
            out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and out[0].k == "const" and out[0].a[0] == "str":
        return out[0]
    return mk("cat", tuple(out))


def pjoin(parts: Iterable[T]) -> T:
    out: List[T] = []
    for p in parts:
        if p.k == "join" and not out:
            out.extend(p.a[0])
        else:
            out.append(p)
    if len(out) >= 2 and _of(out[0], "os.path.dirname") is not None and _of(out[0], "os.path.dirname") is _of(out[1], "os.path.basename"):
        return pjoin([_of(out[0], "os.path.dirname")] + out[2:])
    return out[0] if len(out) == 1 else mk("join", tuple(out))


def _of(t, name):
    return t.a[1][0] if t.k == "call" and t.a[0].k == "ext" and t.a[0].a[0] == name and len(t.a[1]) == 1 else None


# ------------------------------------------------------------------------------------------ booleans
def lt(a, b):
    return _cmp("lt", sub(a, b))


def le(a, b):
    return _cmp("le", sub(a, b))


def _cmp(k, p):
    if is_num(p):
        return const(p.a[1] < 0 if k == "lt" else p.a[1] <= 0)
    # len(x) is a natural number: every spelling of "non-empty" / "empty" gets one form
    it = _to_poly(p)
    atoms = [(m, c) for m, c in it.items() if m != ()]
    if len(atoms) == 1 and len(atoms[0][0]) == 1 and abs(atoms[0][1]) == 1:
        x, c, k0 = atoms[0][0][0], atoms[0][1], it.get((), 0)
        if x.k == "call" and x.a[0].k == "ext" and x.a[0].a[0] == "len":
            if (c, k0, k) in ((-1, 0, "lt"), (-1, 1, "le")):
                return not_(mk("eq", *sorted((x, ZERO))))
            if (c, k0, k) in ((1, 0, "le"), (1, -1, "lt")):
                return mk("eq", *sorted((x, ZERO)))
    return mk(k, p)


def eq(a, b):
    if a is b:
        return TRUE
    if a.k == "const" and b.k == "const":
        return const(a.a == b.a)
    if a is TRUE or b is TRUE:
        o = b if a is TRUE else a
        if o.k in ("lt", "le", "eq", "is", "in", "not", "and", "or"):
            return o
    x, y = sorted((a, b))
    return mk("eq", x, y)


def is_(a, b):
    if a is b and a.k == "const":
        return TRUE
    if a.k == "const" and b.k == "const":
        return const(a is b)
    if (b is NONE and a.k in ("list", "dict", "tuple", "new", "lambda", "join", "cat", "comp", "poly")) or (
        a is NONE and b.k in ("list", "dict", "tuple", "new", "lambda", "join", "cat", "comp", "poly")
    ):
        return FALSE
    x, y = sorted((a, b))
    return mk("is", x, y)


def in_(a, b):
    return mk("in", a, b)


def truth(t: T) -> T:
    """Canonical truthiness of a term used as a condition."""
    if t.k == "const":
        if t.a[0] in ("bool", "int", "float", "str", "NoneType", "bytes"):
            return const(bool(t.a[1]))
        return t
    if t.k in ("list", "tuple", "dict", "set") and t.a and isinstance(t.a[0], tuple):
        return const(bool(t.a[0])) if not any(getattr(x, "k", "") == "star" for x in t.a[0]) else t
    if t.k == "call" and t.a[0].k == "ext" and t.a[0].a[0] == "bool" and len(t.a[1]) == 1:
        return truth(t.a[1][0])
    if t.k == "call" and t.a[0].k == "ext" and t.a[0].a[0] == "len" and len(t.a[1]) == 1:
        return truth(t.a[1][0]) if False else not_(eq(t, ZERO))
    if t.k == "ite":
        c, a, b = t.a[0], truth(t.a[1]), truth(t.a[2])
        if b is c or b is FALSE:
            return and_(c, a)
        if a is c or a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if a is not_(c):
            return and_(a, b)
        if b is not_(c):
            return or_(b, a)
        return ite(c, a, b)
    return t


def not_(t: T) -> T:
    if t.k == "const":
        return const(not t.a[1])
    if t.k == "not":
        return t.a[0]
    if t.k == "lt":
        return mk("le", neg(t.a[0]))
    if t.k == "le":
        return mk("lt", neg(t.a[0]))
    if t.k == "and":
        return or_(*[not_(x) for x in t.a[0]])
    if t.k == "or":
        return and_(*[not_(x) for x in t.a[0]])
    if t.k == "ite" and t.a[1].k == "const" and t.a[2].k == "const":
        return ite(t.a[0], not_(t.a[1]), not_(t.a[2]))
    return mk("not", t)


def and_(*ts) -> T:
    out = set()
    for t in ts:
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t.k == "and":
            out |= set(t.a[0])
        else:
            out.add(t)
    if any(not_(x) in out for x in out):
        return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out.pop()
    return mk("and", tuple(sorted(out)))


def or_(*ts) -> T:
    out = set()
    for t in ts:
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        if t.k == "or":
            out |= set(t.a[0])
        else:
            out.add(t)
    if any(not_(x) in out for x in out):
        return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out.pop()
    # absorb: x or (x and y) == x ; x or (not x and y) == x or y
    new = set()
    for t in out:
        if t.k == "and":
            lits = set(t.a[0])
            if lits & (out - {t}):
                continue
            keep = [x for x in lits if not_(x) not in out]
            t = and_(*keep)
        new.add(t)
    if new != out:
        return or_(*new)
    return mk("or", tuple(sorted(out)))


BOOLISH = ("lt", "le", "eq", "is", "in", "not", "and", "or")


def ite(c: T, a: T, b: T) -> T:
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.k == "not":
        return ite(c.a[0], b, a)
    if c.k in ("le",):
        return ite(not_(c), b, a)
    if a is TRUE and b is FALSE and c.k in BOOLISH:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a in (TRUE, FALSE) and b.k in BOOLISH or b in (TRUE, FALSE) and a.k in BOOLISH:
        return or_(and_(c, a), and_(not_(c), b))
    if a.k == "ite" and a.a[0] is c:
        return ite(c, a.a[1], b)
    if b.k == "ite" and b.a[0] is c:
        return ite(c, a, b.a[2])
    if a.k == "ite" and a.a[2] is b:
        return ite(and_(c, a.a[0]), a.a[1], b)
    return mk("ite", c, a, b)


def literals(c: T) -> List[T]:
    return list(c.a[0]) if c.k == "and" else ([] if c is TRUE else [c])


# ------------------------------------------------------------------------------------------ traversal
def children(t: T):
    def go(x):
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                yield from go(y)

    for x in t.a:
        yield from go(x)


def subterms(t: T):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(children(x))


def mentions(t: T, pred: Callable[[T], bool]) -> bool:
    return any(pred(x) for x in subterms(t))


def contains(t: T, s: T) -> bool:
    return any(x is s for x in subterms(t))


_memo_strip: Dict[T, T] = {}


def rebuild(t: T, f: Callable[[T], Optional[T]], memo=None) -> T:
    """Bottom-up rewrite; f may return a replacement for an already rebuilt node (or None)."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]

    def go(x):
        if isinstance(x, T):
            return rebuild(x, f, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    if t.k == "poly":
        r = ZERO
        for c, m in t.a[0]:
            term = const(c)
            for atom in m:
                term = mul(term, rebuild(atom, f, memo))
            r = add(r, term)
    elif t.k == "ite":
        r = ite(go(t.a[0]), go(t.a[1]), go(t.a[2]))
    elif t.k == "and":
        r = and_(*go(t.a[0]))
    elif t.k == "or":
        r = or_(*go(t.a[0]))
    elif t.k == "not":
        r = not_(go(t.a[0]))
    elif t.k in ("lt", "le"):
        r = _cmp(t.k, go(t.a[0]))
    elif t.k == "eq":
        r = eq(go(t.a[0]), go(t.a[1]))
    elif t.k == "is":
        r = is_(go(t.a[0]), go(t.a[1]))
    elif t.k == "cat":
        r = cat(go(t.a[0]))
    elif t.k == "join":
        r = pjoin(go(t.a[0]))
    else:
        r = mk(t.k, *(go(x) for x in t.a))
    r2 = f(r)
    if r2 is not None:
        r = r2
    memo[t] = r
    return r


def strip(t: T) -> T:
    """Forget versions and call identities: same text-independent shape, time-insensitive."""

    def f(x):
        if x.k == "attr" and x.a[2]:
            return mk("attr", x.a[0], x.a[1], 0)
        if x.k == "sub" and x.a[2]:
            return mk("sub", x.a[0], x.a[1], 0)
        if x.k == "call" and x.a[3]:
            return mk("call", x.a[0], x.a[1], x.a[2], 0)
        if x.k == "new" and x.a[3]:
            return mk("new", x.a[0], x.a[1], x.a[2], 0)
        return None

    return rebuild(t, f, _memo_strip)


def subst(t: T, m: Dict[T, T]) -> T:
    return rebuild(t, lambda x: m.get(x))


def simplify_under(t: T, lits) -> T:
    """Resolve gates of t decided by the given condition literals."""
    s = set(lits)
    n = {not_(x) for x in s}

    def f(x):
        if x.k == "ite":
            if x.a[0] in s or (x.a[0].k == "and" and all(y in s for y in x.a[0].a[0])):
                return x.a[1]
            if x.a[0] in n or (x.a[0].k == "or" and all(y in n for y in x.a[0].a[0])):
                return x.a[2]
        if x in s:
            return TRUE
        if x in n:
            return FALSE
        return None

    return rebuild(t, f)


def alts(t: T) -> List[T]:
    """The possible values of a gated term."""
    if t.k == "ite":
        out = []
        for x in (t.a[1], t.a[2]):
            for y in alts(x):
                if y not in out:
                    out.append(y)
        return out
    return [t]


def galts(t: T, cond: T = TRUE) -> List[Tuple[T, T]]:
    """(condition, value) alternatives of a gated term."""
    if t.k == "ite":
        return galts(t.a[1], and_(cond, t.a[0])) + galts(t.a[2], and_(cond, not_(t.a[0])))
    return [(cond, t)]


# ------------------------------------------------------------------------------------------ printing
def show(t, depth=7) -> str:
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    k, a = t.k, t.a
    s = lambda x: show(x, d)  # noqa: E731
    if k == "const":
        return repr(a[1])
    if k == "param":
        return a[0]
    if k == "self":
        return "self"
    if k in ("ext", "fn", "cls", "glob", "mod"):
        return a[0].split("litdata.")[-1]
    if k == "attr":
        return f"{s(a[0])}.{a[1]}" + (f"@{a[2]}" if a[2] else "")
    if k == "meth":
        return f"{s(a[0])}.{a[1]}"
    if k == "sub":
        return f"{s(a[0])}[{s(a[1])}]"
    if k == "slice":
        return ":".join("" if x is NONE else s(x) for x in a)
    if k in ("call", "new"):
        f = s(a[0]) if isinstance(a[0], T) else a[0].split(".")[-1]
        return f"{f}({', '.join([s(x) for x in a[1]] + [f'{n}={s(v)}' for n, v in a[2]])})"
    if k == "poly":
        out = []
        for c, m in a[0]:
            ms = "*".join(s(x) for x in m)
            out.append(f"{c}" if not m else (ms if c == 1 else f"{c}*{ms}"))
        return "(" + " + ".join(out) + ")"
    if k == "lt":
        return f"({s(a[0])} < 0)"
    if k == "le":
        return f"({s(a[0])} <= 0)"
    if k == "eq":
        return f"({s(a[0])} == {s(a[1])})"
    if k == "is":
        return f"({s(a[0])} is {s(a[1])})"
    if k == "in":
        return f"({s(a[0])} in {s(a[1])})"
    if k == "not":
        return f"not {s(a[0])}"
    if k == "and":
        return "(" + " and ".join(s(x) for x in a[0]) + ")"
    if k == "or":
        return "(" + " or ".join(s(x) for x in a[0]) + ")"
    if k == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if k == "cat":
        return "f'" + "".join(x.a[1] if x.k == "const" else "{" + s(x) + "}" for x in a[0]) + "'"
    if k == "join":
        return "join(" + ", ".join(s(x) for x in a[0]) + ")"
    if k in ("tuple", "list", "set"):
        return k[0] + "[" + ", ".join(s(x) for x in a[0]) + "]"
    if k == "dict":
        return "{" + ", ".join(f"{s(x)}: {s(y)}" for x, y in a[0]) + "}"
    if k == "comp":
        return f"{a[0]}<{s(a[1])} for {', '.join(s(i) + (' if ' + s(c) if c is not TRUE else '') for i, c in a[2])}>"
    if k == "op":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if k in ("elem", "idx"):
        return f"{k}({s(a[0])})"
    return f"{k}({', '.join(show(x, d) if isinstance(x, T) else str(x) for x in a)})"
